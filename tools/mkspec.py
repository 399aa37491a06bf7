#!/usr/bin/env python3
"""One-off: transcribes the parameter tables of the pinned source (git object b82f0cd) into /verif/spec/*.json.

The checks read only the JSON; it is the reference the code is compared with and is not regenerated from /repo.
"""
import re, json, subprocess
BASE = "b82f0cd"


def src(p):
    return subprocess.run(["git", "-C", "/repo", "show", BASE + ":src/" + p], capture_output=True, text=True, check=True).stdout


def strip(s):
    return re.sub(r"//[^\n]*", "", s)


def consts(s):
    s = strip(s)
    out = {}
    for m in re.finditer(r"const (\w+): \[[^=]*?\] = (\[.*?\]);", s, re.S):
        body = re.sub(r"(?<=[0-9.])_+(?=[0-9Ee,\s\]]|$)", "", m.group(2))
        body = body.replace("_", "")
        out[m.group(1)] = json.loads(json.dumps(eval(body)))
    return out


def num(x):
    return float(x.replace("_", ""))


d = strip(src("detail.rs"))
c = consts(src("detail.rs"))
n0i = [[0.0] * 7 for _ in range(21)]
for m in re.finditer(r"self\.n0i\[(\d+)\]\[(\d+)\] = ([-0-9._eE]+);", d):
    n0i[int(m.group(1))][int(m.group(2))] = num(m.group(3))
c["N0I"] = n0i
assert len(c["AN"]) == 58 and len(c["EIJ"]) == 21
json.dump(c, open("/verif/spec/detail.json", "w"), indent=0)
print("detail", sorted(c))

g = strip(src("gerg2008.rs"))
c = consts(src("gerg2008.rs"))
setup = g[g.index("fn setup"):g.index("pub fn set_composition")]
dims = dict(coik=(22, 25), doik=(22, 25), toik=(22, 25), dijk=(11, 13), tijk=(11, 13), cijk=(11, 13), eijk=(11, 13),
            gijk=(11, 13), nijk=(11, 13), bijk=(11, 13), n0i=(22, 8), bvij=(22, 22), gvij=(22, 22), btij=(22, 22),
            gtij=(22, 22))
T = {k: [[0.0] * b for _ in range(a)] for k, (a, b) in dims.items()}
l1 = setup.index("for i in 1..=MAXFLDS {")
l2 = setup.index("for i in 1..=4 {")
l3 = setup.index("self.coik[15]") if "self.coik[15]" in setup else None
for m in re.finditer(r"self\.(coik|doik|toik)\[i\]\[(\d+)\] = ([-0-9._eE]+);", setup):
    for i in (range(1, 22) if m.start() < l2 else (1, 2, 4)):
        T[m.group(1)][i][int(m.group(2))] = num(m.group(3))
for m in re.finditer(r"(?:self\.)?(\w+)\[(\d+)\]\[(\d+)\] = ([-0-9._eE]+);", setup):
    T[m.group(1)][int(m.group(2))][int(m.group(3))] = num(m.group(4))
c["setup"] = T
json.dump(c, open("/verif/spec/gerg.json", "w"), indent=0)
print("gerg", sorted(c), sorted(T))
