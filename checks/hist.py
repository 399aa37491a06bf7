"""C09, C10: results do not depend on earlier calls.

A calculation is executed symbolically on a fresh model and on a model that already carries the state left by another
calculation at other inputs.  Every relation between the two sets of inputs is covered by four cases (composition and
temperature each either the same or different in at least one bit); within a case the solver decides, bit-precisely, every
condition that compares inputs, and the two results must be the same expression of the inputs.
"""
import time, math, itertools, random, os, json
import z3
from engine import expr as X, exec as EX
from engine.expr import Node
from engine.session import Sess, NX, DEC
from engine.facts import Ranges
from engine.fp import FP, F64
from engine.report import pmap, Inconclusive
from engine.build import OUTS, COMP

AX = ["ax%d" % k for k in range(21)]
BX = ["bx%d" % k for k in range(21)]
XR, TR = (0.0, 2.0), (1e-3, 1e6)
FLOPS = {"fadd", "fsub", "fmul", "fdiv"}
OKOPS = FLOPS | {"const", "var", "fcmp", "fabs", "fneg", "ite", "bite", "and", "or", "not", "xor", "iconst", "icmp", "true",
                 "false", "izext", "itrunc", "ior", "iand", "ixor", "iadd", "isub", "fbits", "fmax", "fmin"}
FIELDS = {"pressure": ["z"], "properties": OUTS + ["p", "d"], "density": ["d"]}


class Rel(Ranges):
    """interval reasoning, then bit-precise queries about conditions over the inputs"""

    def __init__(self, ck, rg, assume):
        Ranges.__init__(self, rg)
        self.ck = ck
        self.F = FP()
        self.s = z3.Solver()
        self.assume = assume
        for a in assume:
            self.s.add(self.F.b(a))
        for n, (l, h) in rg.items():
            v = self.F.var(n)
            self.s.add(z3.fpLEQ(z3.FPVal(l, F64), v), z3.fpLEQ(v, z3.FPVal(h, F64)))
            if l == 0:
                self.s.add(z3.Not(z3.fpIsNegative(v)))
        self.memo, self.fit, self.open, self.far, self.spent, self.vs = {}, {}, [], [], 0.0, {}

    def small(self, c):
        v = self.fit.get(c.id)
        if v is None:
            v = self.fit[c.id] = self.fits(c)
        return v

    def fits(self, c):
        seen, st, fl = {c.id}, [c], 0
        while st:
            n = st.pop()
            if n.op not in OKOPS or n.op == "var" and n.data not in self.r:
                return False
            fl += n.op in FLOPS
            if fl > 80 or len(seen) > 600:
                return False
            for a in n.args:
                if a.id not in seen:
                    seen.add(a.id)
                    st.append(a)
        return True

    def decide(self, st, c):
        r = self.alone(st, c)
        if r is None and self.small(c):
            # the conditions under which this point of the code is reached
            v = self.vars(c)
            for a in self.assume:        # the assumptions link variables of different conditions
                if v & self.vars(a):
                    v |= self.vars(a)
            pc = [p for p in st.pc if self.small(p) and self.vars(p) & v][-60:]
            if pc:
                k = (c.id,) + tuple(p.id for p in pc)
                if k not in self.memo:
                    self.s.push()
                    for p in pc:
                        self.s.add(self.F.b(p))
                    self.memo[k] = self.ask(c)
                    self.s.pop()
                r = self.memo[k]
        return r

    def alone(self, st, c):
        if c.id in self.memo:
            return self.memo[c.id]
        r = Ranges.decide(self, st, c)
        if r is None and self.small(c):
            r = self.ask(c)
            if r is None:
                self.open.append(c)
        elif r is None and c.op == "fcmp" and len(self.far) < 400:
            self.far.append(c)
        self.memo[c.id] = r
        return r

    def vars(self, c):
        v = self.vs.get(c.id)
        if v is None:
            v = self.vs[c.id] = frozenset(n.data for n in X.topo([c]) if n.op == "var")
        return v

    def ask(self, c):
        """1/0 when the solver shows that c always/never holds under the current assertions"""
        g = self.F.b(c)
        for val in (1, 0):
            self.s.push()
            self.s.add(z3.Not(g) if val else g)
            t0 = time.time()
            try:
                u = self.ck.sat(self.s, 10 if self.spent < 60 else 0.5)
            except Inconclusive:
                u = "sat"
            self.spent += time.time() - t0
            self.s.pop()
            if u == "unsat":
                return val
        return None


def nonempty(xs):
    return X.bor(*[X.fcmp("one", X.var(n), 0.0) for n in xs])


def start(S, E, m, xs, t, d, p, cells=None):
    st = EX.State()
    o = S.model(E, st, m)
    if cells is not None:
        st.mem[o.obj].base = dict(cells)
        st.mem[o.obj].delta = {}
    S.put(E, st, m, o, "x", [X.var(n) for n in xs])
    for f, v in (("t", t), ("d", d), ("p", p)):
        S.put(E, st, m, o, f, X.var(v) if type(v) is str else v)
    return st, o


def execute(S, ck, R, m, op, st, o, E):
    E.pick = E.tidy = True
    E.iv = R.iv
    E.deadline = ck.deadline
    r = S.call(E, m, op, o, st, *((X.ivar("flag"),) if op == "density" and m == "g" else ()))
    if len(r) != 1 or E.events:
        raise Inconclusive("%s.%s: %r" % (DEC[m], op, [(k, i) for k, i, _ in E.events[:2]]))
    return r[0]


def reported(S, E, st, m, o, op, ret):
    r = {k: S.get(E, st, m, o, k) for k in FIELDS[op]}
    if ret is not None and ret is not EX.UNDEF:
        r["returned value"] = ret
    return r


def first_state(S, ck, m, op):
    """memory left by op at inputs A on a fresh model"""
    rg = {n: XR for n in AX}
    rg["at"] = TR
    d, p = "ad", "ap"
    if op == "density":      # inputs for which at least one state is evaluated
        rg["at"] = (100.0, 1000.0)
        rg["ap"] = (1.0, 1e5)
        d = 0.0
    R = Rel(ck, rg, [nonempty(AX)])
    E = S.engine(R.decide)
    st, o = start(S, E, m, AX, "at", d, p)
    st, _ = execute(S, ck, R, m, op, st, o, E)
    return S.snap(st, o)


def rel(ck, op1, sx, sxt):
    xs, t = (AX if sx else BX), ("at" if sxt else "bt")
    rg = {n: XR for n in AX + xs}
    rg["at"] = TR
    rg[t] = TR
    if op1 == "density":
        rg["at"] = (100.0, 1000.0)
        rg["ap"] = (1.0, 1e5)
    ass = [nonempty(AX), nonempty(xs)]
    if not sx:
        ass.append(X.bor(*[X.fcmp("one", X.var(a), X.var(b)) for a, b in zip(AX, xs)]))
    if not sxt:
        ass.append(X.fcmp("one", X.var("at"), X.var("bt")))
    return Rel(ck, rg, ass), xs, t


def pattern(S, m, cells, holes, tag="h"):
    """cells of a fresh run with the untouched initial contents of the listed cells replaced by arbitrary values"""
    img = S.image(m)
    out = dict(cells)
    for off in holes:
        c = cells.get(off)
        i0 = img.get(off)
        if c is None or c[1] != 8:
            continue
        init = 0.0
        if i0 is not None and i0[1] == 8:
            init = i0[0] if type(i0[0]) is float else (X.unbits(i0[0]) if type(i0[0]) is int else None)
        h = X.var("%s%d" % (tag, off))
        out[off] = (subst_leaf(c[0], init, h), 8)
    return out


def subst_leaf(v, init, h):
    """leaves of the ite tree v equal to init become h"""
    memo = {}

    def isinit(u):
        if type(u) is int:
            u = X.unbits(u)
        return type(u) is float and init is not None and X.bits(u) == X.bits(init)
    if type(v) is not Node:
        return h if isinit(v) else v
    st = [v]
    while st:
        n = st[-1]
        if n.id in memo:
            st.pop()
            continue
        if n.op == "ite" and n.kind == "f":
            todo = [a for a in n.args[1:] if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[n.id] = X.fite(n.args[0], memo[n.args[1].id], memo[n.args[2].id])
        else:
            u = X._unc(n)
            memo[n.id] = h if isinit(u) else u
        st.pop()
    return memo[v.id]


def matches(v, pat, h):
    """v is pat with some value in place of the variable h"""
    seen = set()
    conds = {}

    def has(n, c):
        if "c" not in conds:
            conds["c"] = {q.args[0].id for q in X.topo([pat]) if q.op == "ite"} if type(pat) is Node else set()
        return c.id in conds["c"]
    st = [(v, pat)]
    while st:
        a, b = st.pop()
        if EX.same(a, b) or b is h:
            continue
        if type(a) is int and type(b) is float:
            a = X.unbits(a)
            if EX.same(a, b):
                continue
        if type(b) is not Node or b.op != "ite":
            return False
        k = (a.id if type(a) is Node else a, b.id)
        if k in seen:
            continue
        seen.add(k)
        if type(a) is Node and a.op == "ite" and a.args[0] is b.args[0]:
            st += [(X._unc(a.args[i]), X._unc(b.args[i])) for i in (1, 2)]
        elif type(a) is Node and a.op == "ite" and not has(b, a.args[0]):
            st += [(X._unc(a.args[i]), b) for i in (1, 2)]
        else:           # a has no such choice: both branches must fit
            st += [(a, X._unc(b.args[i])) for i in (1, 2)]
    return True


CTX = {}


def job(ck, item):
    """-> dict(bad, cells, fits, models)"""
    op1, op2, sx, sxt, rnd = item
    S, m = CTX["S"], CTX["m"]
    S.encoded.clear()
    cells = CTX["first"][op1]
    holes = CTX["holes"]
    if rnd:
        cells = pattern(S, m, cells, holes)
        cells[S.N.off[m]["mm"]] = (X.var("hmm"), 8)
    R, xs, t = rel(ck, op1, sx, sxt)
    E = S.engine(R.decide)
    st, o = start(S, E, m, xs, t, "bd", "bp", cells)
    st, ret = execute(S, ck, R, m, op2, st, o, E)
    h = reported(S, E, st, m, o, op2, ret)
    openc = list(R.open)
    E2 = S.engine(R.decide)
    s2, o2 = start(S, E2, m, xs, t, "bd", "bp")
    s2, ret2 = execute(S, ck, R, m, op2, s2, o2, E2)
    f = reported(S, E2, s2, m, o2, op2, ret2)
    bad = [k for k in f if k not in h or not EX.same(f[k], h[k]) or S.from_statics(f[k])]
    ck.obl += len(f)
    ck.disch += len(f) - len(bad)
    ck.functions |= S.encoded
    img = S.image(m)
    c1, c2 = S.snap(st, o), S.snap(s2, o2)
    cellsd, fits = [], True
    pat = pattern(S, m, c2, holes)
    for off in sorted(set(c1) | set(c2)):
        a, b = c1.get(off, img.get(off)), c2.get(off, img.get(off))
        if a is None and b is None or a is not None and b is not None and EX.same(a[0], b[0]):
            continue
        cellsd.append(off)
        if a is None or b is None or a[1] != 8 or off not in pat or \
                not matches(a[0], pat[off][0], X.var("h%d" % off)):
            fits = False
    models = []
    if bad and not (sx and sxt):
        models = concretise(ck, R, openc, xs, t)
        if not sx:
            models += coincide(ck, R.far, t)
    ck.witnesses += 1
    return dict(bad=bad, cells=cellsd, fits=fits, models=models, forks=E.stats["forks"])


def concretise(ck, R, conds, xs, t):
    """inputs on either side of the conditions the solver left open: solver models, with benign values where possible"""
    out = []
    avars = set(AX + ["at"])
    F, s = R.F, R.s
    conds = [c for c in conds if any(n.op == "var" and n.data in avars for n in X.topo([c]))]
    both = [c for c in conds if any(n.op == "var" and n.data in set(BX + ["bt"]) for n in X.topo([c]))]
    for c in (both or conds)[:12]:
        for val in (0, 1):
            for level in (0, 1):
                s.push()
                g = F.b(c)
                s.add(g if val else z3.Not(g))
                if level == 0:
                    for n in set(AX + xs):
                        v = F.var(n)
                        s.add(z3.Or(z3.fpEQ(v, z3.FPVal(0.0, F64)), z3.fpGEQ(v, z3.FPVal(0.02, F64))),
                              z3.fpLEQ(v, z3.FPVal(0.1, F64)))
                    s.add(*[z3.fpGEQ(F.var(n), z3.FPVal(0.02, F64)) for n in AX[:4] + xs[:4]])
                    for n in {"at", t}:
                        s.add(z3.fpGEQ(F.var(n), z3.FPVal(250.0, F64)), z3.fpLEQ(F.var(n), z3.FPVal(350.0, F64)))
                try:
                    r = ck.sat(s, 30)
                except Inconclusive:
                    r = None
                mo = s.model() if r == "sat" else None
                s.pop()
                if mo is not None:
                    g = lambda n: F.model(mo, n)
                    out.append(([g(n) for n in AX], g("at"), [g(n) for n in xs], g(t)))
                    break
    return out


def coincide(ck, conds, t, seconds=40):
    """compositions at which two compared quantities, one of each call, coincide exactly or nearly (bisection)"""
    rng = random.Random(ck.seed)
    out, seen = [], set()
    end = time.time() + seconds
    for c in conds:
        tp = X.topo([c])
        vs = {n.data for n in tp if n.op == "var"}
        if len(tp) > 30000 or not vs & set(AX) or not vs & set(BX) or not vs <= set(AX + BX + ["at", "bt"]):
            continue
        l, r = c.args
        if (l.id, r.id) in seen:
            continue
        seen.add((l.id, r.id))

        def f(xa, xb, ta, tb):
            env = dict(zip(AX, xa))
            env.update(zip(BX, xb))
            env.update(at=ta, bt=tb)
            v = X.evaluate([c], env)
            return v[l.id] - v[r.id]
        for _ in range(6):
            if time.time() > end:
                return out
            xa, b0, b1 = rcomp(rng), rcomp(rng), rcomp(rng)
            ta = rng.uniform(250, 350)
            tb = ta if t == "at" else rng.uniform(250, 350)
            mix = lambda s: [(1 - s) * p + s * q for p, q in zip(b0, b1)]
            try:
                g = lambda s: f(xa, mix(s), ta, tb)
                lo, hi = 0.0, 1.0
                gl, gh = g(lo), g(hi)
                if not gl * gh < 0:
                    continue
                for _ in range(60):
                    mid = (lo + hi) / 2
                    gm = g(mid)
                    if gm == 0:
                        lo = mid
                        break
                    if gm * gl < 0:
                        hi = mid
                    else:
                        lo = mid
                s = lo
                for k in range(60):
                    if g(s) == 0:
                        break
                    s = math.nextafter(s, 2.0) if k < 40 else s + 1e-15 * k
                out.append((xa, ta, mix(s), tb))
            except (ArithmeticError, ValueError, NotImplementedError, KeyError):
                continue
    return out


# ------------------------------------------------------------------------------------------------ replay
def outcome(i, op, flag):
    r = i.density(flag) if op == "density" else (i.properties() if op == "properties" else i.pressure())
    b = {k: X.bits(getattr(i, k)) for k in FIELDS[op]}
    if not (op == "properties" and i.m == "d"):
        b["returned value"] = X.bits(r) if type(r) is float else r
    return b


def setin(i, inp):
    xs, t, d, p = inp
    i.setx(xs)
    i.t, i.d, i.p = t, d, p


def same_outcome(a, b):
    """fields that differ (two NaNs count as the same)"""
    out = []
    for k in a:
        if a[k] != b[k]:
            if type(a[k]) is int and k != "returned value" and X.unbits(a[k]) != X.unbits(a[k]) and X.unbits(b[k]) != X.unbits(b[k]):
                continue
            if k == "returned value" and a[k] > 2 ** 32 and X.unbits(a[k]) != X.unbits(a[k]) and X.unbits(b[k]) != X.unbits(b[k]):
                continue
            out.append(k)
    return out


def apart(f, *a):
    """f in a process of its own, which has made no call before"""
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.write(wr, json.dumps(f(*a)).encode())
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as h:
        r = h.read()
    os.waitpid(pid, 0)
    return json.loads(r)


def replay(N, m, hist, last):
    """hist: [(op, flag, inputs)], last: (op, flag, inputs) -> text when the result depends on the history"""
    def end_of(calls):
        i = N.new(m)
        for op, fl, inp in calls + [last]:
            setin(i, inp)
            r = outcome(i, op, fl)
        return r
    a, b = (apart if CTX["S"].statics else lambda f, *q: f(*q))(end_of, hist), \
        (apart if CTX["S"].statics else lambda f, *q: f(*q))(end_of, [])
    df = same_outcome(a, b)
    if df:
        k = df[0]
        sh = lambda v: X.unbits(v) if not (k == "returned value" and last[0] == "density") else v
        return "%s.%s() after %s reports %s = %r, on a fresh model %r; last inputs T = %r, d = %r, p = %r, x = %s" % (
            DEC[m], last[0], ", ".join("%s at T = %r" % (h[0], h[2][1]) for h in hist), k, sh(a[k]), sh(b[k]),
            last[2][1], last[2][2], last[2][3], {COMP[n]: v for n, v in enumerate(last[2][0]) if v})
    return None


OPS = [("pressure", 0), ("properties", 0), ("density", 0), ("density", 1)]


def try_pairs(N, m, A, B, rng, ops1=None, ops2=None):
    (xa, ta), (xb, tb) = A, B
    for op1, f1 in ops1 or OPS[:3]:
        for op2, f2 in ops2 or OPS[:3]:
            for d, p in ((3.0, 8000.0), (0.05, 100.0), (12.0, 40000.0)):
                h = [(op1, f1, (xa, ta, d * rng.uniform(0.5, 1.5), p))]
                l = (op2, f2, (xb, tb, d, p))
                w = replay(N, m, h, l)
                if w:
                    return w, dict(model=m, history=h, last=l)
    return None


def rcomp(rng):
    k = rng.choice((1, 1, 2, 3, 5, 21))
    ids = rng.sample(range(21), k) if k < 21 else range(21)
    xs = [0.0] * 21
    if rng.random() < 0.3:
        ws = [rng.choice((0.125, 0.25, 0.5)) for _ in ids]
    else:
        ws = [rng.uniform(0.02, 1) for _ in ids]
        s = sum(ws)
        ws = [w / s for w in ws]
    for n, w in zip(ids, ws):
        xs[n] = w
    return xs


def mutate(rng, xs):
    xs = list(xs)
    r = rng.random()
    nz = [k for k in range(21) if xs[k]]
    zs = [k for k in range(21) if not xs[k]]
    if r < 0.2 and len(nz) > 1:
        a, b = rng.sample(nz, 2)
        xs[a], xs[b] = xs[b], xs[a]
    elif r < 0.4 and zs:
        a, b = rng.choice(nz), rng.choice(zs)
        xs[a], xs[b] = xs[b], xs[a]
    elif r < 0.55 and zs:
        xs[rng.choice(zs)] = rng.choice((1e-12, 1e-9, 1e-8, 1e-6, 1e-3, 0.1))
    elif r < 0.65 and len(nz) > 1:
        xs[rng.choice(nz)] = 0.0
    elif r < 0.9:
        a = rng.choice(nz)
        xs[a] += rng.choice((-1, 1)) * rng.choice((1e-15, 1e-12, 1e-10, 1e-9, 3e-8, 1e-7, 1e-6, 1e-4, 1e-2)) * xs[a]
    else:
        return rcomp(rng)
    return xs


def search(N, m, rng, seconds):
    """histories of two or three calls with slightly or completely different inputs"""
    end = time.time() + seconds
    n = 0
    while time.time() < end:
        n += 1
        xs, t = rcomp(rng), rng.choice((rng.uniform(150, 500), 300.0, 250.0, 0.5, 5000.0))
        hist = []
        cx, ct = xs, t
        for _ in range(rng.choice((1, 1, 2, 3))):
            op, fl = rng.choice(OPS)
            d = rng.choice((0.0, 1e-3, 0.5, 3.0, 10.0))
            hist.append((op, fl, (cx, ct, d if op != "density" else 0.0, rng.choice((100.0, 3000.0, 20000.0, 0.0)))))
            r = rng.random()
            if r < 0.65:
                cx = mutate(rng, cx)
            elif r < 0.7:
                cx = xs
            r = rng.random()
            if r < 0.35:
                ct += rng.choice((-1, 1)) * rng.choice((1e-13, 1e-10, 3e-8, 9e-8, 1e-6, 1e-4, 5e-3, 0.3, 7.0))
            elif r < 0.5:
                ct = rng.uniform(150, 500)
            elif r < 0.55:
                ct = t
        op, fl = rng.choice(OPS)
        last = (op, fl, (cx, ct, rng.choice((0.0, 1e-3, 0.5, 3.0, 10.0)), rng.choice((100.0, 3000.0, 20000.0, 0.0))))
        w = replay(N, m, hist, last)
        if w:
            return w, dict(model=m, history=hist, last=last), n
    return None, None, n


def history(ck, m):
    S = Sess(native=("3",))
    N = S.N
    rng = random.Random(ck.seed)
    CTX.clear()
    CTX.update(S=S, m=m, holes=[])
    ops = ["pressure", "properties"]
    S.image(m)
    CTX["first"] = {op: first_state(S, ck, m, op) for op in ops}
    ck.functions |= S.encoded
    cases = [(a, b) for a in (0, 1) for b in (0, 1)]
    items = [(op1, op2, a, b, 0) for op1 in ops for op2 in ops for a, b in cases]
    res = pmap(ck, job, items)
    problems = list(ck.problems)
    if not problems and not any(r["bad"] for r in res):
        CTX["first"]["density"] = first_state(S, ck, m, "density")
        it2 = [(op1, "density", a, b, 0) for op1 in ops + ["density"] for a, b in cases]
        it2 += [("density", op2, a, b, 0) for op2 in ops for a, b in cases]
        items += it2
        res += pmap(ck, job, it2)
        problems = list(ck.problems)
    holes = set()
    for it, r in zip(items, res):
        if r and it[0] in ops and it[1] in ops:
            holes |= set(r["cells"])
    bad = [(it, r) for it, r in zip(items, res) if r and r["bad"]]
    closed = False
    if not bad and not problems:
        for rnd in range(1, 4):
            CTX["holes"] = sorted(holes)
            it2 = [(op1, op2, a, b, rnd) for op1 in ops for op2 in ops for a, b in cases]
            before = ck.obl, ck.disch
            r2 = pmap(ck, job, it2)
            if ck.problems or any(r["bad"] for r in r2):
                ck.obl, ck.disch = before
                break
            new = set().union(*[set(r["cells"]) for r in r2]) - holes
            if not new:
                closed = all(r["fits"] for r in r2)
                break
            holes |= new
    ck.extra["state_cells_left_stale"] = len(holes)
    ck.extra["histories_of_any_length"] = bool(closed)
    ck.extra["cases"] = len(items)
    ck.bounds += [
        "calls: pressure, properties and density (every mode flag), each after each of them",
        "inputs of both calls: every mole fraction in [0, 2] (not all zero, no negative zero), every temperature in [1e-3, 1e6], "
        "every density and pressure (any bit pattern)",
        "density as the earlier call: pressure in [1, 1e5] kPa, temperature in [100, 1000] K, no initial guess",
        "density search executed completely (every iteration)"]
    if closed:
        ck.notes.append("the state left by a call is the same function of its own inputs whatever came before, except for %d cells "
                        "that later calls were shown not to use: the result extends to histories of any length" % len(holes))
    else:
        ck.notes.append("two-call histories only")
    ck.assumptions += ["floating-point arithmetic and elementary functions are deterministic functions of their operands",
                       "the same inputs means bit-identical inputs; inputs differing in value are covered down to one ulp"]
    ck.samples += ["%s then %s, composition %s, temperature %s: %d path splits, %d reported values identical" % (
        it[0], it[1], "same" if it[2] else "different", "same" if it[3] else "different", r["forks"], len(FIELDS[it[1]]))
        for it, r in list(zip(items, res))[:6] if r and not r["bad"]]
    if bad:
        tried = 0
        for it, r in bad:
            for xa, ta, xb, tb in r["models"]:
                tried += 1
                w = try_pairs(N, m, (xa, ta), (xb, tb), rng)
                if w:
                    return report(ck, m, it, r, w)
        w, rp, n = search(N, m, rng, 60)
        if w:
            return report(ck, m, bad[0][0], bad[0][1], (w, rp))
        it, r = bad[0]
        raise Inconclusive("%s.%s() after %s (%d cases): %s not shown independent of the history; %d solver models and %d searched "
                           "histories gave no difference" % (DEC[m], it[1], it[0], len(bad), ", ".join(r["bad"][:4]), tried, n))
    if problems:
        raise Inconclusive(problems[0])
    # the same claim on the native code (encoding sanity)
    w, rp, n = search(N, m, rng, 5)
    if w:
        ck.violation("%s:history" % m, w, rp)
        return
    ck.validated += n


def report(ck, m, it, r, w):
    ck.violation("%s:history" % m, w[0], w[1])


def c09(ck):
    history(ck, "d")


def c10(ck):
    history(ck, "g")
