"""Symbolic executor for the LLVM IR of the crate.

Each basic block is translated to straight-line Python; states that meet at a block are merged (ite), loops are
unrolled until no state is left inside them (weak topological order), so a run covers every path at once.
"""
import resource, struct, time
from . import expr as X
from .expr import Node, mk, bnot, band, bor, fop, fcmp, fite, iite, iop, icmp, bite
from . import ir as IR


class Stop(Exception):
    """the executor cannot go on (unsupported construct, limit)"""


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return type(o) is Ptr and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Obj:
    __slots__ = ("size", "base", "delta", "kind", "name", "const")

    def __init__(self, size, kind, name, base=None, const=False):
        self.size, self.kind, self.name = size, kind, name
        self.base = base if base is not None else {}
        self.delta = {}
        self.const = const

    def fork(self):
        o = Obj(self.size, self.kind, self.name, self.base, self.const)
        if len(self.delta) > 400:
            nb = dict(self.base)
            nb.update(self.delta)
            self.base = nb
            self.delta = {}
            o.base = nb
        else:
            o.delta = dict(self.delta)
        return o

    def get(self, off):
        c = self.delta.get(off)
        if c is None:
            c = self.base.get(off)
        return c


class State:
    __slots__ = ("pc", "facts", "mem", "shared", "trace", "tags")

    def __init__(self):
        self.pc = []
        self.facts = set()
        self.mem = {}
        self.shared = set()    # object ids whose Obj may be shared with another state (copy on write)
        self.trace = ()        # observer data (stores to watched cells)
        self.tags = ()

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.facts = set(self.facts)
        s.mem = dict(self.mem)
        self.shared = set(self.mem)
        s.shared = set(self.mem)
        s.trace = self.trace
        s.tags = self.tags
        return s

    def assume(self, c):
        """add a conjunct; returns False when it is known to be contradictory"""
        if type(c) is not Node:
            return bool(c)
        if c.op == "and":
            return all([self.assume(a) for a in c.args])
        if c.id in self.facts:
            return True
        if bnot(c).id in self.facts:
            return False
        self.pc.append(c)
        self.facts.add(c.id)
        return True

    def wobj(self, i):
        if i in self.shared:
            self.mem[i] = self.mem[i].fork()
            self.shared.discard(i)
        return self.mem[i]

    def pcnode(self):
        return band(*self.pc) if self.pc else 1


leaves = X.ileaves


# ---------------------------------------------------------------------------------------------- value merging
def merge_val(c, a, b, w=64):
    """value of ite(c, a, b)"""
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if ta is tuple and tb is tuple and len(a) == len(b):
        return tuple(merge_val(c, x, y, w) for x, y in zip(a, b))
    if ta is Ptr or tb is Ptr or ta is PIte or tb is PIte:
        if a == b:
            return a
        return PIte(c, a, b)
    ka = a.kind if ta is Node else ("f" if ta is float else "n")
    kb = b.kind if tb is Node else ("f" if tb is float else "n")
    if "f" in (ka, kb):
        if ka == "n":
            a = X.unbits(a)
        elif ka == "i":
            a = frombits(a)
        if kb == "n":
            b = X.unbits(b)
        elif kb == "i":
            b = frombits(b)
        return fite(c, a, b)
    if "b" in (ka, kb):
        if ka == "i" or kb == "i":
            a = iite(a, 1, 0, w) if ka == "b" else a
            b = iite(b, 1, 0, w) if kb == "b" else b
            return iite(c, a, b, w)
        return bite(c, a, b)
    if ta is Node:
        w = a.width
    elif tb is Node:
        w = b.width
    return iite(c, a, b, w)


def frombits(v):
    if type(v) is int:
        return X.unbits(v)
    if v.op == "fbits":
        return v.args[0]
    if v.op == "ite":
        return fite(v.args[0], frombits(X._unc(v.args[1])), frombits(X._unc(v.args[2])))
    return mk("frombits", (v,))


def tobits(v):
    if type(v) is float:
        return X.bits(v)
    if type(v) is Node and v.kind == "f":
        if v.op == "frombits":
            return v.args[0]
        return mk("fbits", (v,), None, "i", 64)
    return v


def same(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is Node or tb is Node:
        return False
    if ta is not tb:
        return False
    if ta is float:
        return X.bits(a) == X.bits(b)
    if ta is PIte:
        return False
    return a == b


def merge_states(s1, e1, s2, e2, live):
    """merge (s2,e2) into (s1,e1); live = slots to merge"""
    k = 0
    n = min(len(s1.pc), len(s2.pc))
    while k < n and s1.pc[k] is s2.pc[k]:
        k += 1
    r1, r2 = s1.pc[k:], s2.pc[k:]
    c1 = band(*r1)
    # a discriminating condition: prefer a single literal whose negation is in the other
    ids2 = {x.id for x in r2}
    c = None
    for x in r1:
        if bnot(x).id in ids2:
            c = x
            break
    if c is None:
        c = c1
    s = s1
    for i in e1 and live or ():
        a, b = e1[i], e2[i]
        if not same(a, b):
            e1[i] = merge_val(c, a, b)
    for oid in list(s1.mem):
        o2 = s2.mem.get(oid)
        if o2 is None:
            continue
        o1 = s1.mem[oid]
        if o1 is o2:
            continue
        if o1.base is o2.base:
            keys = set(o1.delta) | set(o2.delta)
        else:
            keys = set(o1.delta) | set(o2.delta) | set(o1.base) | set(o2.base)
        w = None
        for off in keys:
            a, b = o1.get(off), o2.get(off)
            if a is b:
                continue
            if a is not None and b is not None and a[1] == b[1]:
                if same(a[0], b[0]):
                    continue
                v = (merge_val(c, a[0], b[0], a[1] * 8), a[1])
            elif a is None:
                v = b
            elif b is None:
                continue
            else:
                raise Stop("merging cells of different size in %s" % o1.name)
            if w is None:
                w = s1.wobj(oid)
            w.delta[off] = v
    for oid in s2.mem:
        if oid not in s1.mem:
            s1.mem[oid] = s2.mem[oid]
            s1.shared.add(oid)
            s2.shared.add(oid)
    c2 = band(*r2)
    d = bor(c1, c2)
    # c∧A ∨ ¬c∧A  ->  A
    common = []
    if type(d) is Node:
        ids1 = {x.id for x in r1}
        common = [x for x in r1 if x.id in ids2]
        o1 = [x for x in r1 if x.id not in ids2]
        o2 = [x for x in r2 if x.id not in ids1]
        d = bor(band(*o1), band(*o2))
    s.pc = s1.pc[:k] + common
    s.facts = {x.id for x in s.pc}
    if type(d) is Node:
        s.pc.append(d)
        s.facts.add(d.id)
    if s1.trace is not s2.trace:
        k = 0
        t1, t2 = s1.trace, s2.trace
        m = min(len(t1), len(t2))
        while k < m and t1[k] is t2[k]:
            k += 1
        s.trace = t1 + t2[k:]
    return s, e1


# ---------------------------------------------------------------------------------------------- compiled functions
class CFunc:
    pass


def sanitize(s):
    return s


INTR_F1 = {"llvm.log.f64": "log", "llvm.exp.f64": "exp", "llvm.sqrt.f64": "sqrt", "llvm.fabs.f64": "fabs",
           "llvm.sin.f64": "sin", "llvm.cos.f64": "cos", "llvm.exp2.f64": "exp2", "llvm.log2.f64": "log2",
           "llvm.log10.f64": "log10", "llvm.floor.f64": "floor", "llvm.ceil.f64": "ceil", "llvm.trunc.f64": "trunc",
           "llvm.sinh.f64": "sinh", "llvm.cosh.f64": "cosh", "llvm.tanh.f64": "tanh",
           "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "expm1": "expm1", "log1p": "log1p", "cbrt": "cbrt",
           "exp": "exp", "log": "log"}
INTR_F2 = {"llvm.pow.f64": "pow", "pow": "pow", "llvm.maxnum.f64": "fmax", "llvm.minnum.f64": "fmin",
           "llvm.maximumnum.f64": "fmax", "llvm.minimumnum.f64": "fmin", "llvm.copysign.f64": "copysign"}
NOPS = ("llvm.lifetime", "llvm.assume", "llvm.experimental.noalias.scope", "llvm.dbg", "llvm.prefetch",
        "llvm.donothing")


class Engine:
    def __init__(self, modules, decide=None, max_iter=100000):
        self.modules = modules
        self.funcs = {}
        for m in modules:
            for n, f in m.funcs.items():
                self.funcs.setdefault(n, f)
        self.cf = {}
        self.decide_cb = decide
        self.events = []
        self.oid = 0
        self.nglob = {}
        self.ginit = {}
        self.steps = 0
        self.max_iter = max_iter
        self.max_steps = None
        self.alloc_hook = None
        self.global_writes = []
        self.heap_live = {}
        self.used = {}
        self.stats = {"blocks": 0, "forks": 0, "merges": 0, "calls": 0}
        self.watch = None
        self.pick = False      # loads choose the branch of an ite whose condition is known
        self.tidy = False      # conditions left by merges are dropped when they always hold
        self.deadline = None
        self.max_rss = 2600000      # kB
        self.statics = {}      # contents of mutable statics that are taken as arbitrary
        self.iv = None         # interval of a node that is certainly not NaN
        self.stubs = {}

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, kind, name):
        self.oid += 1
        i = self.oid
        st.mem[i] = Obj(size, kind, name)
        return Ptr(i, 0)

    def gobj(self, mod, name):
        """object id of a global (string key); initial image built lazily"""
        key = name
        g = mod.globals.get(name)
        if g is None:
            for m in self.modules:
                if m.globals.get(name) is not None:
                    mod, g = m, m.globals[name]
                    break
        key = "%d%s" % (self.modules.index(mod), name) if g is not None else name
        if key not in self.ginit:
            if g is None:
                self.ginit[key] = Obj(1 << 40, "extern", name, const=True)
                if "GLOBAL_PANIC_COUNT" in name:
                    self.ginit[key].base[0] = (0, 8)      # no panic is under way
            else:
                t, v, const = g
                o = Obj(IR.size(t), "global", name, const=const)
                fill(o.base, 0, t, v, self, mod)
                for off, x in self.statics.get(key, {}).items():
                    o.base[off] = (x, 8)
                self.ginit[key] = o
        return key

    def obj(self, st, i):
        o = st.mem.get(i)
        if o is None and type(i) is str:
            return self.ginit[i]
        return o

    def event(self, st, kind, info=""):
        self.events.append((kind, info, st))
        return None

    def load(self, st, p, sz, fl):
        if type(p) is PIte:
            return merge_val(p.c, self.load(st, p.a, sz, fl), self.load(st, p.b, sz, fl), sz * 8)
        if type(p) is not Ptr:
            self.event(st.fork(), "badptr", "load through %r" % (p,))
            raise Dead()
        off = p.off
        if type(off) is Node:
            ls = leaves(off)
            if ls is None:
                ls = self.split(off)
            v = None
            for c, k in ls:
                u = self.load(st, Ptr(p.obj, k), sz, fl)
                v = u if v is None else merge_val(c, u, v, sz * 8)
            return v
        o = st.mem.get(p.obj)
        if o is None:
            o = self.obj(st, p.obj)
            if o is None:
                self.event(st.fork(), "uaf", "load from a dead object")
                raise Dead()
        if off >= (1 << 63):
            off -= 1 << 64
        c = o.delta.get(off)
        if c is None:
            c = o.base.get(off)
        if c is not None and c[1] == sz:
            v = c[0]
            if self.pick and type(v) is Node and v.op == "ite":
                v = self.under(st.facts, v)
            if fl:
                if type(v) is float or (type(v) is Node and v.kind == "f") or v is UNDEF:
                    return v
                if type(v) in (int, Node):
                    return frombits(v)
            elif type(v) is float or (type(v) is Node and v.kind == "f"):
                return tobits(v)
            return v
        if off < 0 or off + sz > o.size:
            self.event(st.fork(), "oob", "load of %d bytes at %d of %s (%d bytes)" % (sz, off, o.name, o.size))
            raise Dead()
        return self.load_slow(o, off, sz, fl)

    def split(self, off):
        """[(condition, offset)] for an offset that adds a part with few values to something else"""
        if off.op == "iadd":
            for x, y in (off.args, off.args[::-1]):
                ls = leaves(x)
                if ls is not None and leaves(y) is not None:
                    return [(c, X.iop("add", y, k, off.width)) for c, k in ls]
        raise Stop("load at unresolved symbolic offset")

    def under(self, facts, v):
        """v with the ite conditions that are known under facts resolved"""
        memo = {}

        known = {}

        def lit(k, depth=6):
            if k.id in facts:
                return 1
            if bnot(k).id in facts:
                return 0
            if k.id in known:
                return known[k.id]
            r = None
            if depth and k.op in ("and", "or") and len(k.args) <= 64:
                z = 0 if k.op == "and" else 1
                r = 1 - z
                for a in k.args:
                    v = lit(a, depth - 1)
                    if v == z:
                        r = z
                        break
                    if v is None:
                        r = None
            elif depth and k.op == "not":
                r = lit(k.args[0], depth - 1)
                r = None if r is None else 1 - r
            elif k.op == "fcmp" and k.data in ("olt", "ole"):
                o = fcmp("ole" if k.data == "olt" else "olt", k.args[1], k.args[0])
                if type(o) is Node:
                    if o.id in facts:
                        r = 0
                    elif self.iv is not None and bnot(o).id in facts and all(self.iv(a) is not None for a in k.args):
                        r = 1        # neither side is NaN
            known[k.id] = r
            return r
        st = [v]
        while st:
            n = st[-1]
            if n.id in memo:
                st.pop()
                continue
            if n.op != "ite":
                memo[n.id] = X._unc(n)
                st.pop()
                continue
            k = n.args[0]
            r = lit(k)
            if r is not None:
                c = n.args[1 if r else 2]
                if c.id in memo:
                    memo[n.id] = memo[c.id]
                    st.pop()
                else:
                    st.append(c)
                continue
            todo = [a for a in n.args[1:] if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            a, b = memo[n.args[1].id], memo[n.args[2].id]
            if a is b or same(a, b):
                memo[n.id] = a
            elif a is X._unc(n.args[1]) and b is X._unc(n.args[2]):
                memo[n.id] = n
            else:
                memo[n.id] = fite(k, a, b) if n.kind == "f" else iite(k, a, b, n.width)
            st.pop()
        return memo[v.id]

    def rmw(self, st, k, p, v, w):
        """atomic read-modify-write, executed by a single thread: the old value"""
        old = self.load(st, p, w // 8, False)
        if k == "xchg":
            new = v
        elif k in ("add", "sub", "and", "or", "xor"):
            new = _ibin(self, k, old, v, w)
        elif k in ("max", "min", "umax", "umin"):
            new = merge_val(icmp({"max": "sgt", "min": "slt", "umax": "ugt", "umin": "ult"}[k], old, v, w), old, v, w)
        else:
            raise Stop("atomicrmw %s" % k)
        self.store(st, p, new, w // 8)
        return old

    def cmpxchg(self, st, p, a, b, w):
        """compare-and-exchange, executed by a single thread: (old value, succeeded)"""
        old = self.load(st, p, w // 8, False)
        c = _icmp(self, "eq", old, a, w, False)
        if c is UNDEF:
            raise Stop("compare-and-exchange of an undefined value")
        self.store(st, p, merge_val(c, b, old, w) if type(c) is Node else (b if c else old), w // 8)
        return (old, c)

    def load_slow(self, o, off, sz, fl):
        # assemble from concrete bytes
        bs = []
        k = off
        while k < off + sz:
            for b in range(0, 16):
                c = o.get(k - b)
                if c is not None and c[1] > b:
                    break
            else:
                return UNDEF
            v = c[0]
            if type(v) is float:
                v = X.bits(v)
            if v is UNDEF:
                return UNDEF
            if type(v) is Node and b == 0 and c[1] > sz:   # narrow read of a wider integer
                if v.kind == "f":
                    v = tobits(v)
                ls = leaves(v)
                if ls is None:
                    raise Stop("partial read of a symbolic cell")
                r = None
                for cc, val in ls:
                    u = val & ((1 << (8 * sz)) - 1)
                    r = u if r is None else iite(cc, u, r, 8 * sz)
                return r
            if type(v) is not int:
                raise Stop("partial read of a symbolic cell in %s at %d" % (o.name, off))
            raw = v.to_bytes(c[1], "little")
            bs.append(raw[b])
            k += 1
        v = int.from_bytes(bytes(bs), "little")
        return X.unbits(v) if fl and sz == 8 else v

    def store(self, st, p, v, sz):
        if type(p) is PIte:
            for q, c in ((p.a, p.c), (p.b, bnot(p.c))):
                try:
                    old = self.load(st, q, sz, type(v) is float or (type(v) is Node and v.kind == "f"))
                except Dead:
                    continue
                self.store(st, q, merge_val(c, v, old, sz * 8), sz)
            return
        if type(p) is not Ptr:
            self.event(st.fork(), "badptr", "store through %r" % (p,))
            raise Dead()
        off = p.off
        if type(off) is Node:
            ls = leaves(off)
            if ls is None:
                raise Stop("store at unresolved symbolic offset")
            for c, k in ls:
                q = Ptr(p.obj, k)
                old = self.load(st, q, sz, type(v) is float or (type(v) is Node and v.kind == "f"))
                self.store(st, q, merge_val(c, v, old, sz * 8), sz)
            return
        if off >= (1 << 63):
            off -= 1 << 64
        i = p.obj
        if i in st.shared:
            st.mem[i] = st.mem[i].fork()
            st.shared.discard(i)
        o = st.mem.get(i)
        if o is None:
            if type(i) is str:
                g = self.ginit[i]
                if g.const:
                    self.event(st.fork(), "constwrite", "store to constant %s" % g.name)
                    raise Dead()
                self.global_writes.append((g.name, off))
                o = g.fork()
                st.mem[i] = o
            else:
                self.event(st.fork(), "uaf", "store to a dead object")
                raise Dead()
        elif type(i) is str:
            self.global_writes.append((o.name, off))
        if off < 0 or off + sz > o.size:
            self.event(st.fork(), "oob", "store of %d bytes at %d of %s (%d bytes)" % (sz, off, o.name, o.size))
            raise Dead()
        d = o.delta
        old = o.get(off)
        if old is None or old[1] != sz:
            self.clobber(o, off, sz)
        d[off] = (v, sz)
        if self.watch is not None and i == self.watch[0] and off in self.watch[1]:
            self.watch[2](st, v)

    def clobber(self, o, off, sz):
        """make room for a cell at [off,off+sz): split or drop overlapping cells"""
        for k in range(off - 15, off + sz):
            c = o.get(k)
            if c is None or k + c[1] <= off or k >= off + sz:
                continue
            if k < off or k + c[1] > off + sz:
                v = c[0]
                if type(v) is float:
                    v = X.bits(v)
                if v is UNDEF:
                    o.delta[k] = (UNDEF, min(c[1], max(off - k, 1)))
                    continue
                if type(v) is not int:
                    raise Stop("partial overwrite of a symbolic cell in %s" % o.name)
                raw = v.to_bytes(c[1], "little")
                for b in range(c[1]):
                    if not off <= k + b < off + sz:
                        o.delta[k + b] = (raw[b], 1)
                if off <= k < off + sz:
                    o.delta[k] = (0, 1) if k != off else (0, sz)
            elif k != off:
                o.delta[k] = (UNDEF, 0)

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        if type(src) is PIte or type(dst) is PIte:
            k = 0
            while k + 8 <= n:
                self.store(st, self.padd(dst, k), self.load(st, self.padd(src, k), 8, False), 8)
                k += 8
            while k < n:
                self.store(st, self.padd(dst, k), self.load(st, self.padd(src, k), 1, False), 1)
                k += 1
            return
        if type(src) is not Ptr or type(dst) is not Ptr:
            self.event(st.fork(), "badptr", "memcpy through a null or wild pointer")
            raise Dead()
        so = self.obj(st, src.obj)
        if so is None or self.obj(st, dst.obj) is None:
            self.event(st.fork(), "uaf", "memcpy on a dead object")
            raise Dead()
        if src.off < 0 or src.off + n > so.size or dst.off < 0 or dst.off + n > self.obj(st, dst.obj).size:
            self.event(st.fork(), "oob", "memcpy of %d bytes" % n)
            raise Dead()
        cells = []
        k = src.off
        end = src.off + n
        while k < end:
            c = so.get(k)
            if c is None or c[1] == 0:
                k += 1
                continue
            if k + c[1] > end:
                raise Stop("memcpy splits a cell")
            cells.append((k - src.off, c))
            k += c[1]
        for off, c in cells:
            self.store(st, Ptr(dst.obj, dst.off + off), c[0], c[1])

    def memset(self, st, dst, v, n):
        if type(v) is Node:
            raise Stop("memset with symbolic byte")
        k = 0
        pat = int.from_bytes(bytes([v & 255]) * 8, "little")
        while k + 8 <= n:
            self.store(st, self.padd(dst, k), pat, 8)
            k += 8
        while k < n:
            self.store(st, self.padd(dst, k), v & 255, 1)
            k += 1

    def padd(self, p, k):
        if type(p) is Ptr:
            if type(k) is int and type(p.off) is int:
                o = (p.off + k) & 0xFFFFFFFFFFFFFFFF
                if o >= 1 << 63:
                    o -= 1 << 64
                return Ptr(p.obj, o)
            return Ptr(p.obj, iop("add", p.off if type(p.off) is Node else p.off & ((1 << 64) - 1), k, 64))
        if type(p) is PIte:
            return PIte(p.c, self.padd(p.a, k), self.padd(p.b, k))
        if type(p) is int and type(k) is int:
            return (p + k) & 0xFFFFFFFFFFFFFFFF
        raise Stop("pointer arithmetic on %r" % (p,))

    def pcmp(self, pred, a, b, w):
        if type(a) is PIte:
            return bite(a.c, self.pcmp(pred, a.a, b, w), self.pcmp(pred, a.b, b, w))
        if type(b) is PIte:
            return bite(b.c, self.pcmp(pred, a, b.a, w), self.pcmp(pred, a, b.b, w))
        if type(a) is Ptr and type(b) is Ptr:
            if a.obj == b.obj:
                return icmp(pred, a.off if type(a.off) is Node else a.off & ((1 << 64) - 1),
                            b.off if type(b.off) is Node else b.off & ((1 << 64) - 1), 64)
            if pred in ("eq", "ne"):
                return 1 if pred == "ne" else 0
        elif type(a) is Ptr and b == 0 or type(b) is Ptr and a == 0:
            if pred in ("eq", "ne"):
                return 1 if pred == "ne" else 0
        raise Stop("pointer comparison %s %r %r" % (pred, a, b))

    # ------------------------------------------------------------ branch decisions
    def decide(self, st, c, fuel=4):
        """1/0 when the condition is known in st, else None"""
        if type(c) is not Node:
            if c is UNDEF:
                self.event(st.fork(), "undef", "branch on an undefined value")
                raise Dead()
            return 1 if c else 0
        f = st.facts
        if c.id in f:
            return 1
        if bnot(c).id in f:
            return 0
        if fuel > 0:
            if c.op == "and":
                vs = [self.decide(st, a, fuel - 1) for a in c.args[:40]]
                if 0 in vs:
                    return 0
                if None not in vs and len(c.args) <= 40:
                    return 1
            elif c.op == "or":
                vs = [self.decide(st, a, fuel - 1) for a in c.args[:40]]
                if 1 in vs:
                    return 1
                if None not in vs and len(c.args) <= 40:
                    return 0
            elif c.op == "not":
                v = self.decide(st, c.args[0], fuel - 1)
                return None if v is None else 1 - v
            elif c.op == "bite":
                v = self.decide(st, c.args[0], fuel - 1)
                if v is not None:
                    return self.decide(st, c.args[1 if v else 2], fuel - 1)
        if self.decide_cb is not None:
            return self.decide_cb(st, c)
        return None

    # ------------------------------------------------------------ running
    def run(self, name, args, st, depth=0):
        """-> [(state, return value)]"""
        f = self.cfunc(name)
        self.used[name] = self.used.get(name, 0) + 1
        self.stats["calls"] += 1
        if depth > 60:
            raise Stop("call depth")
        env = [UNDEF] * f.nslots
        for s, a in zip(f.params, args):
            env[s] = a
        pend = {b: [] for b in f.blocks}
        pend[f.entry].append((st, env))
        rets = []
        allocas = []
        ctx = (f, pend, rets, allocas, depth)
        self.run_wto(ctx, f.wto)
        if not rets:
            return []
        for s, _ in rets:
            for a in allocas:
                s.mem.pop(a, None)
                s.shared.discard(a)
        if len(rets) == 1:
            return rets
        out = []
        s0, r0 = rets[0]
        for s1, r1 in rets[1:]:
            e1 = [r0]
            s0, e1 = merge_states(s0, e1, s1, [r1], (0,))
            self.stats["merges"] += 1
            r0 = e1[0]
        return [(s0, r0)]

    def run_wto(self, ctx, wto):
        f, pend = ctx[0], ctx[1]
        for el in wto:
            if type(el) is tuple:     # component (head, body)
                head, body = el
                n = 0
                while pend[head] or any(pend[b] for b in f.comp[head]):
                    n += 1
                    if n > self.max_iter:
                        raise Unbounded(f.name, head, pend[head])
                    if pend[head]:
                        self.run_block(ctx, head)
                    self.run_wto(ctx, body)
            else:
                if pend[el]:
                    self.run_block(ctx, el)

    def run_block(self, ctx, b):
        f, pend, rets, allocas, depth = ctx
        lst = pend[b]
        pend[b] = []
        st, env = lst[0]
        live = f.live[b]
        for s2, e2 in lst[1:]:
            self.stats["merges"] += 1
            st, env = merge_states(st, env, s2, e2, live)
        if self.tidy and len(lst) > 1 and st.pc:
            # a disjunction left by the merge that holds in any case says nothing about this point
            d = st.pc.pop()
            st.facts.discard(d.id)
            if d.op != "or" or self.decide(st, d) != 1:
                st.pc.append(d)
                st.facts.add(d.id)
        self.stats["blocks"] += 1
        segs = f.blocks[b]
        self.run_segs(ctx, b, segs, 0, st, env)

    def run_segs(self, ctx, b, segs, k, st, env):
        f, pend, rets, allocas, depth = ctx
        if self.deadline is not None:
            if time.time() > self.deadline:
                raise Stop("time limit of the symbolic execution")
        if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > self.max_rss:
            raise Stop("memory limit of the symbolic execution")
        while True:
            try:
                t = segs[k](self, st, env)
            except Dead:
                return
            kind = t[0]
            if kind == 0:       # goto
                self.goto(f, pend, b, t[1], st, env)
                return
            if kind == 1:       # condbr
                c = t[1]
                try:
                    v = self.decide(st, c)
                except Dead:
                    return
                if v is not None:
                    self.goto(f, pend, b, t[2] if v else t[3], st, env)
                    return
                self.stats["forks"] += 1
                s2 = st.fork()
                e2 = list(env)
                if st.assume(c):
                    self.goto(f, pend, b, t[2], st, env)
                if s2.assume(bnot(c)):
                    self.goto(f, pend, b, t[3], s2, e2)
                return
            if kind == 2:       # ret
                rets.append((st, t[1]))
                return
            if kind == 3:       # call
                _, dst, name, args = t
                k += 1
                if type(name) is not str:
                    if type(name) is not Ptr or type(name.obj) is not str or not name.obj.startswith("fn@"):
                        raise Stop("indirect call in %s" % f.name)
                    name = name.obj[2:]
                rs = self.call(name, args, st, depth)
                if not rs:
                    return
                for s2, r in rs[1:]:
                    e2 = list(env)
                    if dst is not None:
                        e2[dst] = r
                    self.run_segs(ctx, b, segs, k, s2, e2)
                st, r = rs[0]
                if dst is not None:
                    env[dst] = r
                continue
            if kind == 4:       # switch
                v, default, cases = t[1], t[2], t[3]
                if type(v) is int:
                    self.goto(f, pend, b, cases.get(v, default), st, env)
                    return
                if v is UNDEF:
                    self.event(st, "undef", "switch on an undefined value")
                    return
                w = t[4]
                ls = leaves(v)
                if ls is not None:
                    by = {}
                    for c, kv in ls:
                        by.setdefault(cases.get(kv, default), []).append(c)
                    for lab, cs in by.items():
                        c = bor(*cs)
                        d = self.decide(st, c)
                        if d == 0:
                            continue
                        s2 = st.fork()
                        if s2.assume(c):
                            self.goto(f, pend, b, lab, s2, list(env))
                    return
                rest = []
                for kv, lab in cases.items():
                    c = icmp("eq", v, kv, w)
                    rest.append(bnot(c))
                    d = self.decide(st, c)
                    if d == 0:
                        continue
                    s2 = st.fork()
                    if s2.assume(c):
                        self.goto(f, pend, b, lab, s2, list(env))
                c = band(*rest)
                if self.decide(st, c) != 0 and st.assume(c):
                    self.goto(f, pend, b, default, st, env)
                return
            if kind == 5:       # unreachable
                self.event(st, "unreachable", f.pretty)
                return
            if kind == 6:       # alloca
                allocas.append(env[t[1]].obj)
                k += 1
                continue
            raise Stop("bad segment result")

    def goto(self, f, pend, frm, to, st, env):
        ph = f.phis.get((frm, to))
        if ph is not None:
            vals = ph[1](env)
            for s, v in zip(ph[0], vals):
                env[s] = v
        pend[to].append((st, env))

    # ------------------------------------------------------------ calls
    def call(self, name, args, st, depth):
        if name in self.stubs:
            return self.stubs[name](self, args, st)
        if name in self.funcs:
            return self.run(name, args, st, depth + 1)
        n = name[1:].strip('"')
        if n in INTR_F1:
            return [(st, fop(INTR_F1[n], args[0]))]
        if n in INTR_F2:
            return [(st, fop(INTR_F2[n], args[0], args[1]))]
        if n == "llvm.fma.f64" or n == "fma":
            return [(st, fop("fma", *args))]
        if n == "llvm.fmuladd.f64":
            return [(st, fop("fadd", fop("fmul", args[0], args[1]), args[2]))]
        if n.startswith("llvm.powi."):
            e = args[1]
            if type(e) is Node:
                raise Stop("powi with symbolic exponent")
            e &= 0xFFFFFFFF
            if e >> 31:
                e -= 1 << 32
            return [(st, X.fpowi(args[0], e))]
        if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
            try:
                self.memcpy(st, args[0], args[1], args[2])
            except Dead:
                return []
            return [(st, args[0])]
        if n.startswith("llvm.memset") or n == "memset":
            try:
                self.memset(st, args[0], args[1], args[2])
            except Dead:
                return []
            return [(st, args[0])]
        if n.startswith(NOPS):
            return [(st, UNDEF)]
        if n.startswith("llvm.threadlocal.address"):
            return [(st, args[0])]
        if n.startswith("llvm.expect"):
            return [(st, args[0])]
        if n.startswith(("llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin")):
            w = int(n.rsplit(".i", 1)[1])
            p = {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[n[5:9]]
            return [(st, merge_val(icmp(p, args[0], args[1], w), args[0], args[1], w))]
        if n.startswith("llvm.abs.i"):
            w = int(n.rsplit(".i", 1)[1])
            c = icmp("slt", args[0], 0, w)
            return [(st, merge_val(c, iop("sub", 0, args[0], w), args[0], w))]
        for op in ("sadd", "ssub", "smul", "uadd", "usub", "umul"):
            if n.startswith("llvm.%s.with.overflow" % op):
                w = int(n.rsplit(".i", 1)[1])
                return [(st, self.overflow(op, args[0], args[1], w))]
            if n.startswith("llvm.%s.sat" % op):
                w = int(n.rsplit(".i", 1)[1])
                r, o = self.overflow(op, args[0], args[1], w)
                if type(o) is Node:
                    raise Stop("saturating arithmetic on symbolic integers")
                if not o:
                    return [(st, r)]
                if op[0] == "u":
                    return [(st, (1 << w) - 1 if op != "usub" else 0)]
                neg = X._s(args[0], w) < 0
                return [(st, 1 << (w - 1) if neg else (1 << (w - 1)) - 1)]
        if n.startswith("llvm.ctpop"):
            return [(st, bin(args[0]).count("1"))]
        if n == "llvm.trap":
            self.event(st, "panic", "trap")
            return []
        if "panic" in n or "unwrap_failed" in n or "expect_failed" in n or n.endswith("_fail") or "slice_" in n and "fail" in n:
            self.event(st, "panic", self.demangle(n))
            return []
        if "handle_alloc_error" in n:
            self.event(st, "allocfail", "")
            return []
        if "__rust_no_alloc_shim" in n:
            return [(st, UNDEF)]
        if "__rust_alloc_zeroed" in n or "__rust_alloc" in n and "error" not in n:
            p = self.new_obj(st, args[0], "heap", "heap%d" % (self.oid + 1))
            self.heap_live[p.obj] = (args[0], args[1])
            st.tags = st.tags + (("alloc", p.obj, args[0], args[1]),)
            if "zeroed" in n:
                self.memset(st, p, 0, args[0])
            return [(st, p)]
        if "__rust_dealloc" in n:
            p = args[0]
            if type(p) is not Ptr or p.off != 0 or p.obj not in st.mem or st.mem[p.obj].kind != "heap":
                self.event(st, "badfree", "free of %r" % (p,))
                return []
            if (st.mem[p.obj].size, self.heap_live.get(p.obj, (0, 0))[1]) != (args[1], args[2]):
                self.event(st, "badfree", "free with the wrong layout")
                return []
            del st.mem[p.obj]
            st.shared.discard(p.obj)
            st.tags = st.tags + (("free", p.obj),)
            return [(st, UNDEF)]
        raise Stop("call of unmodelled function %s" % n)

    def overflow(self, op, a, b, w):
        base = op[1:]
        if type(a) is Node or type(b) is Node:
            la, lb = leaves(a), leaves(b)
            if la is None or lb is None:
                # the exact result in a wider type, compared with the wrapped one
                k = w + 1 if base != "mul" else 2 * w
                ext = (lambda v: _sext(v, w, k)) if op[0] == "s" else (lambda v: _zext(v, w, k))
                r = iop(base, a, b, w)
                return (r, bnot(icmp("eq", iop(base, ext(a), ext(b), k), ext(r), k)))
            r = None
            for ca, va in la:
                for cb, vb in lb:
                    v = self.overflow(op, va, vb, w)
                    c = band(ca, cb)
                    if r is None:
                        r = v
                    elif c == 1 or type(c) is Node:
                        r = (merge_val(c, v[0], r[0], w), bite(c, v[1], r[1]))
            return r
        m = (1 << w) - 1
        if op[0] == "s":
            x, y = X._s(a, w), X._s(b, w)
        else:
            x, y = a, b
        t = x + y if base == "add" else x - y if base == "sub" else x * y
        r = t & m
        ov = (X._s(r, w) if op[0] == "s" else r) != t
        return (r, 1 if ov else 0)

    def demangle(self, n):
        import re
        parts = re.findall(r"\d+([A-Za-z_]\w*)", n)
        return n

    # ------------------------------------------------------------ translation
    def cfunc(self, name):
        c = self.cf.get(name)
        if c is None:
            c = self.cf[name] = compile_func(self, self.funcs[name])
        return c


class Dead(Exception):
    """the current state ended (an event was recorded)"""


class Unbounded(Stop):
    def __init__(self, fn, head, pend):
        Stop.__init__(self, "loop in %s not finished" % fn)
        self.pend = pend


def fill(cells, off, t, v, eng, mod):
    """write initialiser v of type t as cells"""
    k = v[0]
    if t[0] == "f":
        if k == "zero":
            cells[off] = (0.0, 8)
        elif k == "c":
            cells[off] = (v[1], 8) if t[1] == 64 else (int.from_bytes(struct.pack("<f", v[1]), "little"), 4)
        return
    if t[0] in ("i", "ptr"):
        sz = IR.size(t)
        if k == "zero":
            cells[off] = (0, sz)
        elif k == "c":
            cells[off] = (v[1], sz)
        elif k == "g":
            cells[off] = (Ptr(eng.gobj(mod, v[1]) if v[1] in mod.globals else "fn" + v[1], v[2]), sz)
            if v[1] not in mod.globals:
                eng.ginit.setdefault("fn" + v[1], Obj(0, "fn", v[1], const=True))
        else:
            cells[off] = (UNDEF, sz)
        return
    if k == "bytes":
        b = v[1]
        n = 0
        while n + 8 <= len(b):
            cells[off + n] = (int.from_bytes(b[n:n + 8], "little"), 8)
            n += 8
        while n < len(b):
            cells[off + n] = (b[n], 1)
            n += 1
        return
    if t[0] == "struct":
        for i, ft in enumerate(t[1]):
            o, _ = IR.field_off(t, i)
            fill(cells, off + o, ft, v[1][i] if k == "agg" else (("zero",) if k == "zero" else ("undef",)), eng, mod)
        return
    if t[0] in ("arr", "vec"):
        es = IR.size(t[2])
        for i in range(t[1]):
            fill(cells, off + i * es, t[2], v[1][i] if k == "agg" else (("zero",) if k == "zero" else ("undef",)), eng, mod)
        return
    raise Stop("initialiser %r" % (t,))


# helpers visible to generated code -------------------------------------------------------------
def _bin_f(op, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return fop(op, a, b)


def _pow2(a, b):
    return fop("pow", a, b)


def _i2b(v):
    """i8/iN truncated to i1"""
    if type(v) is int:
        return v & 1
    if v is UNDEF:
        return v
    if v.kind == "b":
        return v
    return icmp("eq", iop("and", v, 1, v.width), 1, v.width)


def _ibin(E, op, a, b, w):
    if type(a) is Ptr or type(b) is Ptr or type(a) is PIte or type(b) is PIte:
        if op == "sub" and type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
            return iop("sub", a.off & ((1 << 64) - 1) if type(a.off) is int else a.off,
                       b.off & ((1 << 64) - 1) if type(b.off) is int else b.off, w)
        if op == "add":
            return E.padd(a, b) if type(a) in (Ptr, PIte) else E.padd(b, a)
        if op == "sub" and type(b) is int:
            return E.padd(a, (-b) & ((1 << 64) - 1))
        if op == "and" and type(a) is Ptr and type(b) is int and b < 16:
            return a.off & b
        raise Stop("integer %s on pointers" % op)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1:
        a, b = _i2b(a), _i2b(b)
        if op == "and":
            return band(a, b)
        if op == "or":
            return bor(a, b)
        if op in ("xor", "add", "sub"):
            return X.bxor(a, b)
    if op in ("udiv", "sdiv", "urem", "srem") and b == 0:
        raise Stop("division by zero reached")
    return iop(op, a, b, w)


def _icmp(E, pred, a, b, w, isptr):
    if type(a) in (Ptr, PIte) or type(b) in (Ptr, PIte):
        return E.pcmp(pred, a, b, w)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1 and (type(a) is Node or type(b) is Node):
        a, b = _i2b(a), _i2b(b)
        x = X.bxor(a, b)
        if pred == "ne":
            return x
        if pred == "eq":
            return bnot(x)
        if pred == "ult":
            return band(bnot(a), b)
        if pred == "ugt":
            return band(a, bnot(b))
        raise Stop("icmp %s i1" % pred)
    return icmp(pred, a, b, w)


def _fcmp(pred, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return fcmp(pred, a, b)


def _zext(v, fw, tw):
    if type(v) is int or v is UNDEF:
        return v
    if v.kind == "b":
        return iite(v, 1, 0, tw)
    ls = None
    if v.op == "ite":
        return iite(v.args[0], _zext(X._unc(v.args[1]), fw, tw), _zext(X._unc(v.args[2]), fw, tw), tw)
    return mk("izext", (v,), fw, "i", tw)


def _sext(v, fw, tw):
    if v is UNDEF:
        return v
    if type(v) is int:
        return X._s(v, fw) & ((1 << tw) - 1)
    if v.kind == "b":
        return iite(v, (1 << tw) - 1, 0, tw)
    if v.op == "ite":
        return iite(v.args[0], _sext(X._unc(v.args[1]), fw, tw), _sext(X._unc(v.args[2]), fw, tw), tw)
    return mk("isext", (v,), fw, "i", tw)


def _trunc(v, fw, tw):
    if v is UNDEF:
        return v
    if tw == 1:
        return _i2b(v)
    if type(v) is int:
        return v & ((1 << tw) - 1)
    if v.op == "ite":
        return iite(v.args[0], _trunc(X._unc(v.args[1]), fw, tw), _trunc(X._unc(v.args[2]), fw, tw), tw)
    return mk("itrunc", (v,), fw, "i", tw)


def _toint(op, v, tw):
    if type(v) is float:
        if v != v:
            return 0
        if op == "fptosi":
            lo, hi = -(1 << (tw - 1)), (1 << (tw - 1)) - 1
        else:
            lo, hi = 0, (1 << tw) - 1
        if v >= hi:
            return hi & ((1 << tw) - 1)
        if v <= lo:
            return lo & ((1 << tw) - 1)
        return int(v) & ((1 << tw) - 1)
    raise Stop("symbolic float to integer conversion")


def _tofp(op, v, fw):
    if type(v) is int:
        return float(X._s(v, fw)) if op == "sitofp" else float(v)
    if v is UNDEF:
        return v
    if v.kind == "b":
        return fite(v, 1.0 if op == "uitofp" else -1.0, 0.0)
    if v.op == "ite":
        return fite(v.args[0], _tofp(op, X._unc(v.args[1]), fw), _tofp(op, X._unc(v.args[2]), fw))
    return mk(op, (v,), fw)


def _select(c, a, b, w):
    if type(c) is not Node:
        if c is UNDEF:
            return UNDEF
        return a if c else b
    return merge_val(c, a, b, w)


def _sel_facts(st, c):
    if type(c) is Node:
        if c.id in st.facts:
            return 1
        if bnot(c).id in st.facts:
            return 0
    return c


def _extract(v, idx):
    for i in idx:
        if v is UNDEF:
            return UNDEF
        v = v[i]
    return v


def _insert(v, e, idx, n):
    l = list(v) if type(v) is tuple else [UNDEF] * n
    if len(idx) > 1:
        l[idx[0]] = _insert(l[idx[0]], e, idx[1:], 4)
    else:
        l[idx[0]] = e
    return tuple(l)


GLOB = dict(_bin_f=_bin_f, _ibin=_ibin, _icmp=_icmp, _fcmp=_fcmp, _zext=_zext, _sext=_sext, _trunc=_trunc,
            _toint=_toint, _tofp=_tofp, _select=_select, _extract=_extract, _insert=_insert, fop=fop, Ptr=Ptr,
            _i2b=_i2b, UNDEF=UNDEF, frombits=frombits, tobits=tobits, _sel_facts=_sel_facts, float=float)


def compile_func(eng, fn):
    mod = fn.module
    slots = {}
    K = []

    def slot(n):
        if n not in slots:
            slots[n] = len(slots)
        return slots[n]

    def konst(v):
        K.append(v)
        return "K[%d]" % (len(K) - 1)

    def opnd(v, t=None):
        k = v[0]
        if k == "r":
            return "e[%d]" % slot(v[1])
        if k == "c":
            x = v[1]
            if type(x) is float:
                if x != x or x in (float("inf"), float("-inf")):
                    return konst(x)
                return repr(x)
            if t is not None and t[0] == "f":
                return repr(float(x))
            return repr(x)
        if k == "g":
            if v[1] in mod.globals:
                return konst(Ptr(eng.gobj(mod, v[1]), v[2]))
            for m in eng.modules:
                if m.globals.get(v[1]) is not None:
                    return konst(Ptr(eng.gobj(m, v[1]), v[2]))
            eng.ginit.setdefault("fn" + v[1], Obj(0, "fn", v[1], const=True))
            return konst(Ptr("fn" + v[1], v[2]))
        if k == "zero":
            if t[0] == "f":
                return "0.0"
            if t[0] == "struct":
                return "(" + "".join(opnd(("zero",), ft) + "," for ft in t[1]) + ")"
            return "0"
        if k == "undef":
            return "UNDEF"
        if k == "agg":
            ts = t[1] if t[0] == "struct" else [t[2]] * t[1]
            return "(" + "".join(opnd(x, tt) + "," for x, tt in zip(v[1], ts)) + ")"
        raise Stop("operand %r" % (v,))

    c = CFunc()
    c.name, c.pretty = fn.name, fn.pretty
    c.params = []
    for (t, n, a) in fn.params:
        c.params.append(slot(n if n is not None else "%%arg%d" % len(c.params)))
    c.blocks, c.phis = {}, {}
    succ = {b: [] for b in fn.order}
    uses, defs, phi_uses = {}, {}, {}

    def reg_uses(x, acc):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "r" and isinstance(x[1], str):
                acc.add(x[1])
            else:
                for y in x:
                    reg_uses(y, acc)
        elif isinstance(x, list):
            for y in x:
                reg_uses(y, acc)

    entry = fn.order[0]
    # the implicit entry label: rustc names it %start
    src = []
    for bi, b in enumerate(fn.order):
        segs = []
        body = []
        uses[b], defs[b] = set(), set()

        def flush():
            nonlocal body
            segs.append(body)
            body = []
        for ins in fn.blocks[b]:
            op = ins[0]
            if op == "phi":
                for v, p in ins[3]:
                    c.phis.setdefault((p, b), []).append((slot(ins[1]), opnd(v, ins[2])))
                    if v[0] == "r":
                        phi_uses.setdefault(p, set()).add(v[1])
                defs[b].add(ins[1])
                continue
            u = set()
            reg_uses(ins[2:], u)
            uses[b] |= {x for x in u if x not in defs[b]}
            if ins[1]:
                defs[b].add(ins[1])
                d = "e[%d]" % slot(ins[1])
            if op == "bin":
                _, _, o, t, a, bb = ins
                x, y = opnd(a, t), opnd(bb, t)
                if t[0] == "f":
                    sym = {"fadd": "+", "fsub": "-", "fmul": "*"}.get(o)
                    if sym:
                        body.append("x=%s; y=%s" % (x, y))
                        body.append("%s = x%sy if type(x) is float and type(y) is float else _bin_f(%r,x,y)" % (d, sym, o))
                    else:
                        body.append("%s = _bin_f(%r,%s,%s)" % (d, o, x, y))
                elif t[0] == "i":
                    w = t[1]
                    if o == "add" and w > 1:
                        body.append("x=%s; y=%s" % (x, y))
                        body.append("%s = (x+y)&%d if type(x) is int and type(y) is int else _ibin(E,'add',x,y,%d)" % (d, (1 << w) - 1, w))
                    else:
                        body.append("%s = _ibin(E,%r,%s,%s,%d)" % (d, o, x, y, w))
                else:
                    raise Stop("vector operation in %s" % fn.name)
            elif op == "fneg":
                body.append("x=%s" % opnd(ins[3], ins[2]))
                body.append("%s = UNDEF if x is UNDEF else fop('fneg',x)" % d)
            elif op == "icmp":
                _, _, pred, t, a, bb = ins
                w = t[1] if t[0] == "i" else 64
                body.append("%s = _icmp(E,%r,%s,%s,%d,%r)" % (d, pred, opnd(a, t), opnd(bb, t), w, t[0] == "ptr"))
            elif op == "fcmp":
                _, _, pred, t, a, bb = ins
                body.append("%s = _fcmp(%r,%s,%s)" % (d, pred, opnd(a, t), opnd(bb, t)))
            elif op == "gep":
                _, _, et, base, idx = ins
                parts, const = [], 0
                t = et
                first = True
                for it, v in idx:
                    if first:
                        es = IR.size(et)
                        first = False
                    elif t[0] in ("arr", "vec"):
                        t = t[2]
                        es = IR.size(t)
                    elif t[0] == "struct":
                        o, t = IR.field_off(t, v[1])
                        const += o
                        continue
                    else:
                        raise Stop("gep")
                    if v[0] == "c":
                        const += X._s(v[1], it[1]) * es
                    else:
                        x = opnd(v, it)
                        if it[1] < 64:
                            x = "_sext(%s,%d,64)" % (x, it[1])
                        parts.append((x, es))
                if not parts:
                    if const:
                        body.append("%s = E.padd(%s,%d)" % (d, opnd(base), const & ((1 << 64) - 1)))
                    else:
                        body.append("%s = %s" % (d, opnd(base)))
                else:
                    acc = None
                    for x, es in parts:
                        tx = x if es == 1 else "_ibin(E,'mul',%s,%d,64)" % (x, es)
                        acc = tx if acc is None else "_ibin(E,'add',%s,%s,64)" % (acc, tx)
                    if const:
                        acc = "_ibin(E,'add',%s,%d,64)" % (acc, const & ((1 << 64) - 1))
                    body.append("%s = E.padd(%s,%s)" % (d, opnd(base), acc))
            elif op == "load":
                t = ins[2]
                if t[0] in ("struct", "arr", "vec"):
                    raise Stop("aggregate load in %s" % fn.name)
                v = "E.load(st,%s,%d,%r)" % (opnd(ins[3]), IR.size(t), t[0] == "f")
                if t == IR.I1:
                    v = "_i2b(%s)" % v
                body.append("%s = %s" % (d, v))
            elif op == "store":
                t = ins[2]
                if t[0] in ("struct", "arr", "vec"):
                    raise Stop("aggregate store in %s" % fn.name)
                v = opnd(ins[3], t)
                if t == IR.I1:
                    v = "_zext(%s,1,8)" % v
                body.append("E.store(st,%s,%s,%d)" % (opnd(ins[4]), v, IR.size(t)))
            elif op == "rmw":
                _, _, k, t, q, v = ins
                body.append("%s = E.rmw(st,%r,%s,%s,%d)" % (d, k, opnd(q), opnd(v, t), IR.size(t) * 8))
            elif op == "cmpxchg":
                _, _, t, q, v, u = ins
                body.append("%s = E.cmpxchg(st,%s,%s,%s,%d)" % (d, opnd(q), opnd(v, t), opnd(u, t), IR.size(t) * 8))
            elif op == "select":
                _, _, t, cc, a, bb = ins
                w = t[1] if t[0] == "i" else 64
                body.append("%s = _select(_sel_facts(st,_i2b(%s)),%s,%s,%d)" % (d, opnd(cc), opnd(a, t), opnd(bb, t), w))
            elif op == "cast":
                _, _, k, ft, v, tt = ins
                x = opnd(v, ft)
                if k == "zext":
                    body.append("%s = _zext(%s,%d,%d)" % (d, x, ft[1], tt[1]))
                elif k == "sext":
                    body.append("%s = _sext(%s,%d,%d)" % (d, x, ft[1], tt[1]))
                elif k == "trunc":
                    body.append("%s = _trunc(%s,%d,%d)" % (d, x, ft[1], tt[1]))
                elif k in ("uitofp", "sitofp"):
                    body.append("%s = _tofp(%r,%s,%d)" % (d, k, x, ft[1]))
                elif k in ("fptoui", "fptosi"):
                    body.append("%s = _toint(%r,%s,%d)" % (d, k, x, tt[1]))
                elif k == "bitcast":
                    if ft[0] == "f" and tt[0] == "i":
                        body.append("%s = tobits(%s)" % (d, x))
                    elif ft[0] == "i" and tt[0] == "f":
                        body.append("%s = frombits(%s)" % (d, x))
                    else:
                        body.append("%s = %s" % (d, x))
                elif k in ("ptrtoint", "inttoptr", "ptrtoaddr", "addrspacecast"):
                    body.append("%s = %s" % (d, x))
                else:
                    raise Stop("cast %s in %s" % (k, fn.name))
            elif op == "copy":
                body.append("%s = %s" % (d, opnd(ins[3], ins[2])))
            elif op == "extract":
                body.append("%s = _extract(%s,%r)" % (d, opnd(ins[3], ins[2]), tuple(ins[4])))
            elif op == "insert":
                t = ins[2]
                n = len(t[1]) if t[0] == "struct" else t[1]
                et = t
                for i in ins[5]:
                    et = et[1][i] if et[0] == "struct" else et[2]
                body.append("%s = _insert(%s,%s,%r,%d)" % (d, opnd(ins[3], t), opnd(ins[4], et), tuple(ins[5]), n))
            elif op == "alloca":
                body.append("e[%d] = E.new_obj(st,%d,'alloca','stack')" % (slot(ins[1]), IR.size(ins[2])))
                body.append("return (6,%d)" % slot(ins[1]))
                flush()
            elif op == "call":
                _, _, t, callee, args = ins
                nm = callee[1:].strip('"') if type(callee) is str else ""
                av = [opnd(v, at) for at, v in args]
                dd = "e[%d]" % slot(ins[1]) if ins[1] else None
                if nm.startswith(NOPS):
                    continue
                if nm in INTR_F1:
                    body.append("x=%s" % av[0])
                    body.append("%s = UNDEF if x is UNDEF else fop(%r,x)" % (dd, INTR_F1[nm]))
                    continue
                body.append("return (3,%s,%s,(%s))" % ("None" if ins[1] is None else str(slot(ins[1])),
                                                       repr(callee) if type(callee) is str else opnd(callee),
                                                       "".join(x + "," for x in av)))
                flush()
            elif op == "br":
                body.append("return (0,%r)" % ins[2])
                succ[b].append(ins[2])
            elif op == "condbr":
                body.append("return (1,_i2b(%s),%r,%r)" % (opnd(ins[2]), ins[3], ins[4]))
                succ[b] += [ins[3], ins[4]]
            elif op == "switch":
                body.append("return (4,%s,%r,%s,%d)" % (opnd(ins[3]), ins[4], konst(dict(ins[5])), ins[2][1]))
                succ[b] += [ins[4]] + [l for _, l in ins[5]]
            elif op == "ret":
                body.append("return (2,%s)" % ("None" if ins[3] is None else opnd(ins[3], ins[2])))
            elif op == "unreachable":
                body.append("return (5,)")
            elif op == "nop":
                continue
            else:
                raise Stop("instruction %r" % (ins,))
        flush()
        for k, sg in enumerate(segs):
            src.append("def b%d_%d(E,st,e):" % (bi, k))
            for l in sg or ["pass"]:
                src.append("    " + l)
        c.blocks[b] = [len(segs), bi]
    for (p, b), lst in c.phis.items():
        pass
    code = "\n".join(src)
    g = dict(GLOB)
    g["K"] = K
    g["_i2b"] = _i2b
    phisrc = []
    for n, ((p, b), lst) in enumerate(c.phis.items()):
        phisrc.append("def ph%d(e): return (%s)" % (n, "".join(o + "," for _, o in lst)))
    exec(compile(code + "\n" + "\n".join(phisrc), fn.name[:60], "exec"), g)
    for b in list(c.blocks):
        n, bi = c.blocks[b]
        c.blocks[b] = [g["b%d_%d" % (bi, k)] for k in range(n)]
    for n, key in enumerate(list(c.phis)):
        c.phis[key] = (tuple(s for s, _ in c.phis[key]), g["ph%d" % n])
    c.nslots = len(slots)
    c.entry = entry
    # liveness
    live_in = {b: set(uses[b]) for b in fn.order}
    changed = True
    while changed:
        changed = False
        for b in reversed(fn.order):
            out = set(phi_uses.get(b, ()))
            for s in succ[b]:
                out |= live_in[s]
            new = uses[b] | (out - defs[b])
            if not new <= live_in[b]:
                live_in[b] |= new
                changed = True
    c.live = {}
    for b in fn.order:
        ph = {ins[1] for ins in fn.blocks[b] if ins[0] == "phi"}
        c.live[b] = tuple(sorted(slots[r] for r in (live_in[b] | ph) if r in slots))
    c.wto, c.comp = wto(entry, succ)
    return c


def wto(entry, succ):
    """Bourdoncle's weak topological order; components as (head, [elements])"""
    import sys
    sys.setrecursionlimit(20000)
    dfn = {}
    num = [0]
    stack = []
    INF = 1 << 60

    def component(v):
        part = []
        for s in succ[v]:
            if dfn.get(s, 0) == 0:
                visit(s, part)
        return (v, part[::-1])

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = head = num[0]
        loop = False
        for s in succ[v]:
            m = visit(s, part) if dfn.get(s, 0) == 0 else dfn[s]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                part.append(component(v))
            else:
                part.append(v)
        return head
    part = []
    visit(entry, part)
    order = part[::-1]
    comp = {}

    def members(el):
        if type(el) is tuple:
            s = {el[0]}
            for x in el[1]:
                s |= members(x)
            comp[el[0]] = s
            return s
        return {el}
    for el in order:
        members(el)
    return order, comp
