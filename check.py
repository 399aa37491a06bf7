"""python3-vt /verif/check.py <property> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from engine import report
TABLE = {"C01": "comp.c01", "C02": "comp.c02", "C03": "comp.c03", "C04": "mass.c04", "C05": "eos.c05", "C06": "eos.c06", "C07": "eos.c07", "C08": "eos.c08", "C09": "hist.c09", "C10": "hist.c10", "C11": "dens.c11", "C12": "dens.c12", "C13": "iface.c13", "C14": "iface.c14", "C15": "iface.c15", "C16": "iface.c16", "C18": "iface.c18",
         "C17": "mass.c17"}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod, fn = TABLE[pid].split(".")
    m = __import__("checks." + mod, fromlist=["x"])
    sys.exit(report.run(pid, tier, seed, getattr(m, fn)))


main()
