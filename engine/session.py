"""One run's build, executor and native library, and helpers to set up models symbolically."""
import time, os
from . import expr as X, exec as EX, build as BU
from .facts import Ranges
from .build import COMP, PUB, OUTS, PROPS
from .exec import Ptr

NX = {"d": 21, "g": 22}
DEC = {"d": "DETAIL", "g": "GERG-2008"}


class Sess:
    def __init__(self, native=("0", "3")):
        self.B = BU.Build(native=native)
        self.N = self.B.native(native[-1])
        self.base = {}
        self.encoded = set()
        self.statics = {}        # global -> {offset: variable}: contents earlier calls may have left
        if any(g is not None and not g[2] for g in self.B.modules[0].globals.values()):
            self.statics = self.written_statics()

    def engine(self, decide=None):
        E = EX.Engine(self.B.modules, decide=decide)
        E.encoded = self.encoded
        E.statics = self.statics
        return E

    def written_statics(self):
        """mutable statics a call leaves changed: 8-byte words that later calls have to take as arbitrary"""
        out, ptrs = {}, []
        for m in "dg":
            for op in ("molar_mass", "pressure", "properties"):
                E = self.engine()
                st = EX.State()
                try:
                    o = self.model(E, st, m, x=[0.05] * 21, t=300.0, d=X.var("sd"))
                    rs = E.run("@vh_%s_%s" % (m, op), [o], st)
                except EX.Stop:
                    continue
                for s2, _ in rs:
                    for k, ob in s2.mem.items():
                        if type(k) is not str:
                            continue
                        b = E.ginit[k]
                        for off in set(ob.delta) | set(ob.base):
                            c = ob.delta.get(off) or ob.base.get(off)
                            a = b.base.get(off)
                            if c[1] == 8 and off % 8 == 0 and not (a is not None and a[1] == 8 and EX.same(a[0], c[0])):
                                out.setdefault(k, {})[off] = "static%d_%d" % (len(out), off)
        self.base.clear()
        return {k: {o: X.var(n) for o, n in v.items()} for k, v in out.items()}

    def from_statics(self, v):
        """whether a value depends on what earlier calls left in a static"""
        if not self.statics or type(v) is not X.Node:
            return False
        return any(n.op == "var" and str(n.data).startswith("static") for n in X.topo([v]))

    def image(self, m):
        """memory image left by the constructor"""
        if m not in self.base:
            E = self.engine()
            st = EX.State()
            o = E.new_obj(st, self.N.size[m], "heap", "model")
            r = E.run("@vh_%s_new" % m, [o], st)
            if len(r) != 1 or E.events:
                raise EX.Stop("constructor of %s: %r" % (DEC[m], E.events[:2]))
            st = r[0][0]
            ob = st.mem[o.obj]
            cells = dict(ob.base)
            cells.update(ob.delta)
            self.base[m] = cells
            self.note(E)
        return self.base[m]

    def note(self, E):
        self.encoded |= set(E.demangle(n) for n in E.used)

    def model(self, E, st, m, **fields):
        o = E.new_obj(st, self.N.size[m], "heap", "model_" + m)
        st.mem[o.obj].base = self.image(m)
        for f, v in fields.items():
            self.put(E, st, m, o, f, v)
        return o

    def put(self, E, st, m, o, f, v):
        off = self.N.off[m][f]
        if f == "x":
            off += 8 if m == "g" else 0
            for k, u in enumerate(v):
                E.store(st, Ptr(o.obj, off + 8 * k), u, 8)
        else:
            E.store(st, Ptr(o.obj, off), v, 8)

    def get(self, E, st, m, o, f):
        return E.load(st, Ptr(o.obj, self.N.off[m][f]), 8, True)

    def getx(self, E, st, m, o):
        return [E.load(st, Ptr(o.obj, self.N.off[m]["x"] + 8 * k), 8, True) for k in range(NX[m])]

    def call(self, E, m, op, o, st, *a):
        if op == "density" and not a:
            a = (0,)
        r = E.run("@vh_%s_%s" % (m, op), [o] + list(a), st)
        self.note(E)
        return r

    def snap(self, st, o):
        """all cells of an object: {offset: (value, size)}"""
        ob = st.mem[o.obj]
        d = dict(ob.base)
        d.update(ob.delta)
        return d

    def changed(self, E, st, size, before, after):
        """[(offset, old, new)] of the 8-byte words whose content is not identical"""
        offs = set()
        for k in set(before) | set(after):
            a, b = before.get(k), after.get(k)
            if a is b or (a is not None and b is not None and a[1] == b[1] and EX.same(a[0], b[0])):
                continue
            for j in range(k & ~7, k + max(c[1] for c in (a, b) if c is not None), 8):
                offs.add(j)
        out = []
        for j in sorted(offs):
            v = []
            for cells in (before, after):
                ob = EX.Obj(size, "heap", "snapshot", cells)
                q = E.new_obj(st, size, "heap", "snapshot")
                st.mem[q.obj] = ob
                v.append(E.load(st, Ptr(q.obj, j), 8, True))
                del st.mem[q.obj]
            if not EX.same(v[0], v[1]):
                out.append((j, v[0], v[1]))
        return out

    def statecells(self, m):
        """offsets of the 8-byte cells that calculations write (results, caches, work arrays)"""
        if not hasattr(self, "sc"):
            self.sc = {}
        if m not in self.sc:
            from .facts import SumRanges
            ns = ["x%d" % k for k in range(21)]
            rg = {n: (1e-12, 1.1) for n in ns}
            rg.update(t=(10.0, 10000.0), d=(1.1e-15, 1000.0))
            E = self.engine(SumRanges(rg, ns).decide)
            st = EX.State()
            o = self.model(E, st, m, x=[X.var(n) for n in ns], t=X.var("t"), d=X.var("d"))
            before = self.snap(st, o)
            out = set()
            for op in ("pressure", "properties"):
                for s2, _ in self.call(E, m, op, o, st.fork()):
                    for off, c in self.snap(s2, o).items():
                        if before.get(off) is not c and c[1] == 8 and off % 8 == 0 and \
                                (type(c[0]) is float or (type(c[0]) is X.Node and c[0].kind == "f")):
                            out.add(off)
            for f in PUB:
                if f != "x":
                    out.add(self.N.off[m][f])
            self.sc[m] = sorted(out)
        return self.sc[m]

    def havoc(self, E, st, m, o, prefix="h"):
        """every cell a calculation may have written gets an arbitrary value"""
        x0 = self.N.off[m]["x"]
        for off in self.statecells(m):
            if not x0 <= off < x0 + 8 * NX[m]:
                E.store(st, Ptr(o.obj, off), X.var("%s%d" % (prefix, off)), 8)
