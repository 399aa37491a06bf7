"""Compiles /repo's current source (library + harness) to LLVM IR for the executor and to native code for replay."""
import os, subprocess, tempfile, shutil, atexit, ctypes, time, sys
from . import ir as IR

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# inlining and clean-up only: no loop rotation, jump threading or vectorisation, so loops keep concrete counters
PASSES = "cgscc(inline),function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)"


class BuildError(Exception):
    pass


def rustc(args):
    env = dict(os.environ)
    env["RUSTUP_TOOLCHAIN"] = "stable"
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["rustc", "--edition", "2021"] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode:
        raise BuildError(r.stdout[-4000:])


class Build:
    def __init__(self, opt="1", native=("0", "3")):
        t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="aga8verif.")
        atexit.register(shutil.rmtree, self.dir, True)
        lib = os.path.join(REPO, "src", "lib.rs")
        hs = os.path.join(HERE, "harness", "harness.rs")

        def go(sub, opt, extra, emit, crate):
            d = os.path.join(self.dir, sub)
            os.makedirs(d)
            base = ["-C", "opt-level=" + opt, "-C", "panic=abort", "-C", "codegen-units=1", "-A", "warnings"] + extra
            rustc(["--crate-name", "aga8", "--crate-type=rlib", "--cfg", 'feature="extern"', "--out-dir", d,
                   "--emit=" + emit] + base + [lib])
            rustc(["--crate-name", "harness", "--crate-type=" + crate, "--extern", "aga8=" + d + "/libaga8.rlib",
                   "--out-dir", d, "--emit=" + emit] + base + [hs])
            return d
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            fi = ex.submit(go, "ir", opt, ["-C", "overflow-checks=on", "-C", "no-prepopulate-passes",
                                           "-C", "passes=" + PASSES, "-C", "debug-assertions=off"], "llvm-ir,link", "rlib")
            fn = {o: ex.submit(go, "n" + o, o, ["-C", "overflow-checks=" + ("on" if o == "0" else "off")], "link", "cdylib")
                  for o in native}
            d = fi.result()
            self.native_dirs = {o: f.result() for o, f in fn.items()}
        self.modules = [IR.parse(os.path.join(d, "aga8.ll")), IR.parse(os.path.join(d, "harness.ll"))]
        self.natives = {}
        self.seconds = time.time() - t0

    def native(self, opt="3"):
        if opt not in self.natives:
            self.natives[opt] = Native(os.path.join(self.native_dirs[opt], "libharness.so"))
        return self.natives[opt]


COMP = ("methane nitrogen carbon_dioxide ethane propane isobutane n_butane isopentane n_pentane hexane heptane octane "
        "nonane decane hydrogen oxygen carbon_monoxide water hydrogen_sulfide helium argon").split()
PUB = "t p d z mm dp_dd d2p_dd2 d2p_dtd dp_dt u h s cv cp w g jt kappa x".split()
OUTS = "z mm dp_dd d2p_dd2 d2p_dtd dp_dt u h s cv cp w g jt kappa".split()
PROPS = "d mm z dp_dd d2p_dd2 dp_dt u h s cv cp w g jt kappa".split()


class Native:
    """ctypes view of the harness library; a model instance is a byte buffer"""

    def __init__(self, path):
        self.path = path
        self.lib = ctypes.CDLL(path)
        for n in ("vh_d_pressure vh_g_pressure vh_d_properties vh_g_properties vh_d_molar_mass vh_g_molar_mass "
                  "vh_c_sum aga8_get_pressure aga8_get_temperature aga8_get_density aga8_calculate_pressure "
                  "aga8_calculate_molar_mass gerg_get_pressure gerg_get_temperature gerg_get_density "
                  "gerg_calculate_pressure gerg_calculate_molar_mass").split():
            getattr(self.lib, n).restype = ctypes.c_double
        for n in ("aga8_new", "gerg_new"):
            getattr(self.lib, n).restype = ctypes.c_void_p
        sz = ctypes.c_size_t
        self.size, self.off = {}, {}
        for m in "dg":
            f = getattr(self.lib, "vh_%s_size" % m)
            f.restype = sz
            self.size[m] = f()
            self.off[m] = self.offs("vh_%s_off_" % m, PUB)
        self.coff = self.offs("vh_c_off_", COMP)
        self.poff = self.offs("vh_p_off_", PROPS)
        self.csize = self.lib.vh_c_size()
        self.psize = self.lib.vh_p_size()

    def offs(self, pre, names):
        r = {}
        for n in names:
            f = getattr(self.lib, pre + n)
            f.restype = ctypes.c_size_t
            r[n] = f()
        return r

    def new(self, m):
        return Inst(self, m)


class Inst:
    def __init__(self, nat, m):
        self.__dict__["nat"], self.__dict__["m"] = nat, m
        buf = ctypes.create_string_buffer(nat.size[m] + 64)
        a = (ctypes.addressof(buf) + 63) & ~63
        self.__dict__["buf"], self.__dict__["a"] = buf, a
        getattr(nat.lib, "vh_%s_new" % m)(ctypes.c_void_p(a))

    def at(self, off):
        return ctypes.c_double.from_address(self.a + off)

    def __getattr__(self, n):
        off = self.nat.off[self.m]
        if n in off:
            return self.at(off[n]).value
        raise AttributeError(n)

    def __setattr__(self, n, v):
        self.at(self.nat.off[self.m][n]).value = v

    def getx(self):
        n = 21 if self.m == "d" else 22
        return [self.at(self.nat.off[self.m]["x"] + 8 * i).value for i in range(n)]

    def setx(self, xs):
        """21 mole fractions, methane first"""
        o = self.nat.off[self.m]["x"] + (8 if self.m == "g" else 0)
        for i, v in enumerate(xs):
            self.at(o + 8 * i).value = v

    def call(self, op, *a):
        return getattr(self.nat.lib, "vh_%s_%s" % (self.m, op))(ctypes.c_void_p(self.a), *a)

    def pressure(self):
        return self.call("pressure")

    def properties(self):
        return self.call("properties")

    def molar_mass(self):
        return self.call("molar_mass")

    def density(self, flag=0):
        return self.call("density", ctypes.c_int(flag))

    def outs(self):
        return {n: getattr(self, n) for n in OUTS + ["p", "t", "d"]}
