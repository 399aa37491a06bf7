"""C01 check(), C02 normalize(), C03 set_composition()."""
import ctypes, math
import z3
from engine import expr as X, exec as EX
from engine.expr import Node
from engine.session import Sess, COMP, DEC, NX, Ptr
from engine.fp import FP, F64
from engine.real import Real
from engine.report import Inconclusive, q

NAMES = ["c%d" % i for i in range(21)]
OK, EMPTY, BAD = 0, 1, 2
RC = {0: "success", 1: "Empty", 2: "BadSum", 10: "Err(Ok)"}


def comp_obj(S, E, st, vals=None):
    o = E.new_obj(st, S.N.csize, "heap", "composition")
    for k, n in enumerate(COMP):
        E.store(st, Ptr(o.obj, S.N.coff[n]), vals[k] if vals else X.var("c%d" % k), 8)
    return o


def comp_get(S, E, st, o):
    return [E.load(st, Ptr(o.obj, S.N.coff[n]), 8, True) for n in COMP]


def one(r, E, what):
    if len(r) != 1 or E.events:
        raise Inconclusive("%s: %d outcomes, events %r" % (what, len(r), [(k, i) for k, i, _ in E.events][:3]))
    return r[0]


def rcleaves(ret):
    l = X.ileaves(ret)
    if l is None:
        raise Inconclusive("return code is not a choice of constants")
    return [(v, c) for c, v in l]


def linear_total(n, memo):
    """coefficient map of a node that is a linear form over the components, else None"""
    st = [n]
    while st:
        m = st[-1]
        if m.id in memo:
            st.pop()
            continue
        pend = [a for a in m.args if a.id not in memo] if m.op in ("fadd", "fsub", "fneg") else []
        if pend:
            st.extend(pend)
            continue
        r = None
        if m.op == "var" and m.data in NAMES:
            r = {m.data: 1}
        elif m.op == "const" and X.unbits(m.data) == 0.0:
            r = {}
        elif m.op in ("fadd", "fsub", "fneg"):
            a = [memo[x.id] for x in m.args]
            if all(x is not None for x in a):
                r = dict(a[0]) if m.op != "fneg" else {k: -v for k, v in a[0].items()}
                if m.op != "fneg":
                    for k, v in a[1].items():
                        r[k] = r.get(k, 0) + (v if m.op == "fadd" else -v)
        memo[m.id] = r
        st.pop()
    return memo[n.id]


def totals(roots):
    """nodes that add up all 21 components once each (in any order)"""
    memo, out = {}, {}
    want = {n: 1 for n in NAMES}
    for m in X.topo([r for r in roots if type(r) is Node]):
        if m.kind == "f" and linear_total(m, memo) == want:
            out[m.id] = m
    return out


def depends(roots, sub):
    """component variables reachable without passing through the substituted nodes"""
    seen, st, out = set(), [r for r in roots if type(r) is Node], set()
    while st:
        m = st.pop()
        if m.id in seen or m.id in sub:
            continue
        seen.add(m.id)
        if m.op == "var":
            out.add(m.data)
        st.extend(m.args)
    return out


class Lib:
    def __init__(self, N):
        self.N = N

    def comp(self, v):
        b = (ctypes.c_double * 21)()
        for k, n in enumerate(COMP):
            ctypes.c_double.from_address(ctypes.addressof(b) + self.N.coff[n]).value = v[k]
        return b

    def read(self, b):
        return [ctypes.c_double.from_address(ctypes.addressof(b) + self.N.coff[n]).value for n in COMP]

    def check(self, v):
        return self.N.lib.vh_c_check(self.comp(v))

    def sum(self, v):
        return self.N.lib.vh_c_sum(self.comp(v))

    def normalize(self, v):
        b = self.comp(v)
        return self.N.lib.vh_c_normalize(b), self.read(b)


def total_is_sum(ck, node, what, L):
    """the node adds every component exactly once, over the reals"""
    Rl = Real()
    t = Rl.f(node)
    s = z3.SolverFor("QF_LRA")
    xs = [Rl.fresh(n) for n in NAMES]
    s.add(t != z3.Sum(xs))
    ck.obl += 1
    if ck.sat(s) == "unsat":
        ck.disch += 1
        return True
    for m in (z3.And([z3.And(x >= 0, x <= 1) for x in xs]), z3.BoolVal(True)):
        s.push()
        s.add(m)
        if ck.sat(s) == "sat":
            v = [num(s.model(), Rl, n) for n in NAMES]
            got, want = L.sum(v), math.fsum(v)
            if not abs(got - want) <= 1e-9 * sum(abs(a) for a in v):
                ck.violation("sum", "%s of %s is %r, the components add up to %r" % (what, show(v), got, want), dict(c=v, got=got, want=want))
                return False
        s.pop()
    raise Inconclusive("%s differs from the sum of the components, not reproduced" % what)


def num(mo, Rl, n):
    v = mo.eval(Rl.fresh(n), model_completion=True)
    return float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(12).as_fraction())


def show(v):
    return "{%s}" % ", ".join("%s: %r" % (n, x) for n, x in zip(COMP, v) if x != 0 or x != x) if any(x != 0 or x != x for x in v) else "{all zero}"


def region(s, which, eps=1e-12):
    """FP conditions on the total under which a verdict is required"""
    c = lambda v: z3.FPVal(v, F64)
    if which == EMPTY:
        return z3.fpLT(z3.fpAbs(s), c(1e-10 * (1 - eps)))
    if which == OK:
        return z3.And(z3.fpGT(s, c(0.99 + eps)), z3.fpLT(s, c(1.01 - eps)))
    return z3.Or(z3.fpIsNaN(s), z3.And(z3.fpGT(z3.fpAbs(s), c(1e-10 * (1 + eps))),
                                       z3.Or(z3.fpLT(s, c(0.99 - eps)), z3.fpGT(s, c(1.01 + eps)))))


def verdict(s):
    """documented verdict of a total"""
    if s != s:
        return BAD
    if abs(s) < 1e-10:
        return EMPTY
    return OK if abs(s - 1) <= 1e-2 else BAD


def c01(ck):
    S = Sess(native=("3",))
    L = Lib(S.N)
    ck.bounds += ["every bit pattern of the total (FP theory); the 21 components are free",
                  "the thresholds 1e-10, 0.99 and 1.01 are compared up to a relative 1e-12"]
    ck.assumptions += ["any order of the 20 floating-point additions counts as the total; z3's FP theory is IEEE-754 binary64, round to nearest"]
    E = S.engine()
    st = EX.State()
    o = comp_obj(S, E, st)
    st2, tot = one(E.run("@vh_c_sum", [o], st), E, "sum()")
    before = comp_get(S, E, st2, o)
    if any(type(v) is not Node or v.data != n for v, n in zip(before, NAMES)):
        ck.violation("sum-changes", "sum() changes the composition", {})
    E = S.engine()
    st = EX.State()
    o = comp_obj(S, E, st)
    st3, ret = one(E.run("@vh_c_check", [o], st), E, "check()")
    S.note(E)
    ck.functions |= S.encoded
    ok = total_is_sum(ck, tot, "sum()", L)
    leaves = rcleaves(ret)
    # validation against the compiled code
    for v in ([0.0] * 21, [1.0 / 21] * 21, [0.5] + [0.0] * 20, [float("nan")] + [0.0] * 20, [0.99] + [0.0] * 19 + [0.0101],
              [1e300] * 21, [-1.0] + [0.1] * 20):
        env = dict(zip(NAMES, v))
        val = X.evaluate([r for r in (ret, tot) if type(r) is Node], env)
        g = val[ret.id] if type(ret) is Node else ret
        t = val[tot.id] if type(tot) is Node else tot
        if g != L.check(v) or not (t == L.sum(v) or t != t):
            raise Inconclusive("encoding of check()/sum() disagrees with the compiled code at %s" % show(v))
        ck.validated += 1
    conds = [c for _, c in leaves if type(c) is Node]
    sub = totals(conds + ([tot] if ok else []))
    rest = depends(conds, sub)
    sv = z3.FP("total", F64)
    for which in (OK, EMPTY, BAD):
        ck.obl += 1
        f = FP({i: sv for i in sub})
        f.vars["total"] = sv
        good = z3.Or([f.b(c) for v, c in leaves if v == which])
        if not rest:
            s = z3.Solver()
            s.add(region(sv, which), z3.Not(good))
            if ck.sat(s, 200) == "unsat":
                ck.disch += 1
                s2 = z3.Solver()
                s2.add(region(sv, which))
                if ck.sat(s2, 60) == "sat":
                    ck.witnesses += 1
                continue
            t = f.model(s.model(), "total")
            v = [t] + [0.0] * 20
            got, total = L.check(v), t
            if got == which:
                raise Inconclusive("counterexample for %s at total %r not reproduced" % (RC[which], t))
            ck.violation("verdict:%s" % RC[which], "check() of a composition with total %r answers %s, expected %s" % (
                t, RC.get(got, got), RC[verdict(t)]), dict(c=v, got=got, want=which))
            continue
        # the verdict looks at more than the total: linear reals over all components
        Rl = Real()
        T = z3.Sum([Rl.fresh(n) for n in NAMES])
        good = z3.Or([Rl.get(c) if type(c) is Node else z3.BoolVal(bool(c)) for v, c in leaves if v == which])
        e = 1e-9
        reg = {OK: z3.And(T > q(0.99 + e), T < q(1.01 - e)), EMPTY: z3.And(T > q(-1e-10 * 0.99), T < q(1e-10 * 0.99)),
               BAD: z3.And(z3.Or(T < q(-1e-9), T > q(1e-9)), z3.Or(T < q(0.99 - e), T > q(1.01 + e)))}[which]
        s = z3.Solver()
        s.add(reg, z3.Not(good))
        hit = None
        for extra in ([z3.And(Rl.fresh(n) >= 0, Rl.fresh(n) <= 1) for n in NAMES], []):
            s.push()
            s.add(*extra)
            if ck.sat(s, 100) == "sat":
                v = [num(s.model(), Rl, n) for n in NAMES]
                if L.check(v) != verdict(math.fsum(v)):
                    hit = v
                    break
            else:
                hit = hit or ()
            s.pop()
        if hit:
            ck.violation("verdict:%s" % RC[which], "check() of %s, total %r, answers %s, expected %s" % (
                show(hit), math.fsum(hit), RC.get(L.check(hit)), RC[verdict(math.fsum(hit))]), dict(c=hit))
        elif hit == ():
            raise Inconclusive("check() depends on more than the total; only its finite behaviour over the reals was decided")
        else:
            raise Inconclusive("check() differs over the reals, not reproduced")
    ck.samples.append("total in FP theory: %d condition nodes, verdicts %s" % (len(X.topo(conds)), sorted({v for v, _ in leaves})))


def c02(ck):
    S = Sess(native=("3",))
    L = Lib(S.N)
    ck.bounds += ["verdict: every bit pattern of the total; success required for totals in [1e-300, 1e300]",
                  "values: every real value of the component and every non-zero real total"]
    ck.assumptions += ["any order of the floating-point additions counts as the total", "x*(1/total) and x/total are the same up to rounding"]
    E = S.engine()
    st = EX.State()
    o = comp_obj(S, E, st)
    st, ret = one(E.run("@vh_c_normalize", [o], st), E, "normalize()")
    new = comp_get(S, E, st, o)
    S.note(E)
    ck.functions |= S.encoded
    leaves = rcleaves(ret)
    for v in ([0.0] * 21, [2.0] * 21, [0.5] + [0.0] * 20, [float("nan")] + [0.0] * 20, [1e308] * 21, [-1.0] + [0.1] * 20,
              [1e-310] + [0.0] * 20):
        env = dict(zip(NAMES, v))
        val = X.evaluate([r for r in [ret] + new if type(r) is Node], env)
        g = val[ret.id] if type(ret) is Node else ret
        gn = [val[n.id] if type(n) is Node else n for n in new]
        r, nv = L.normalize(v)
        if g != r or any(not (a == b or a != a or abs(a - b) <= 1e-15 * abs(b)) for a, b in zip(gn, nv)):
            raise Inconclusive("encoding of normalize() disagrees with the compiled code at %s" % show(v))
        ck.validated += 1
    conds = [c for _, c in leaves if type(c) is Node]
    sub = totals(conds + new)
    rest = depends(conds, sub)
    sv = z3.FP("total", F64)

    def probe(t):
        """concrete compositions with total t"""
        out = [[t] + [0.0] * 20]
        if math.isfinite(t):
            out.append([0.0] * 20 + [t])
            out.append([t / 2] * 2 + [0.0] * 19)
        return out

    def judge(v):
        """None or a description of what is wrong with normalize(v)"""
        t = L.sum(v)
        r, nv = L.normalize(v)
        if r != 0:
            if any(X.bits(a) != X.bits(b) for a, b in zip(v, nv)):
                return "fails with %s but changes the components to %s" % (RC.get(r, r), show(nv))
            if 1e-300 <= t <= 1e300:
                return "fails with %s although the total is %r" % (RC.get(r, r), t)
            return None
        if not (t > 0) or math.isinf(t):
            return "succeeds although the total is %r" % t
        for n, a, b in zip(COMP, v, nv):
            if math.isfinite(a) and not abs(b - a / t) <= 1e-12 * abs(a / t) + 1e-320:
                return "turns %s = %r into %r, %r / %r is %r" % (n, a, b, a, t, a / t)
        return None

    def attempt(key, vs):
        for v in vs:
            w = judge(v)
            if w:
                ck.violation(key, "normalize() of %s %s" % (show(v), w), dict(c=v))
                return True
        return False

    def verdict_query(key, f, cond, timeout=200):
        s = z3.Solver()
        s.add(cond)
        ck.obl += 1
        if ck.sat(s, timeout) == "unsat":
            ck.disch += 1
            return
        t = f.model(s.model(), "total")
        vs = probe(t)
        if rest:
            vs = [[f.model(s.model(), n) if n in f.vars else 0.0 for n in NAMES]] + vs
        if not attempt(key, vs):
            raise Inconclusive("normalize(): counterexample at total %r not reproduced" % t)
    ff = lambda: FP({i: sv for i in sub})
    zero = z3.FPVal(0.0, F64)
    f = ff()
    f.vars["total"] = sv
    succ = z3.Or([f.b(c) for v, c in leaves if v == 0])
    if rest:
        # the verdict looks at single components: decide it over the reals first
        Rl = Real()
        T = z3.Sum([Rl.fresh(n) for n in NAMES])
        sr = z3.Or([Rl.get(c) if type(c) is Node else z3.BoolVal(bool(c)) for v, c in leaves if v == 0])
        for key, cond in (("refused", z3.And(T > q(1e-3), T < 1000, z3.Not(sr))), ("accepted", z3.And(T < q(-1e-6), sr))):
            s = z3.Solver()
            s.add(cond)
            ck.obl += 1
            if ck.sat(s, 100) == "unsat":
                ck.disch += 1
            elif not attempt(key, [[num(s.model(), Rl, n) for n in NAMES]]):
                raise Inconclusive("normalize(): its verdict depends on single components, not reproduced")
        if ck.viol:
            return
        raise Inconclusive("the verdict of normalize() depends on more than the total")
    verdict_query("refused", f, z3.And(z3.fpGEQ(sv, z3.FPVal(1e-300, F64)), z3.fpLEQ(sv, z3.FPVal(1e300, F64)), z3.Not(succ)))
    verdict_query("accepted", f, z3.And(z3.Or(z3.Not(z3.fpGT(sv, zero)), z3.fpIsInf(sv)), succ))
    s = z3.Solver()
    s.add(succ)
    if ck.sat(s, 60) == "sat":
        ck.witnesses += 1
    # factors computed from the total alone stay finite and non-zero on success
    facs = {}
    for r in new:
        if type(r) is Node:
            stk = [r]
            seen = set()
            while stk:
                n = stk.pop()
                if n.id in seen or n.id in sub:
                    continue
                seen.add(n.id)
                if n.kind == "f" and n.op not in ("const", "var") and not depends([n], sub) and any(a.id in sub or a.op != "const" for a in n.args):
                    facs[n.id] = n
                    continue
                stk.extend(a for a in n.args if a.kind == "f")
    for n in list(facs.values())[:4]:
        t = f.get(n)
        verdict_query("factor", f, z3.And(succ, z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t), z3.fpIsZero(t))))
    # values over the reals
    for k in range(21):
        if type(new[k]) is not Node:
            if not attempt("value:%s" % COMP[k], [[float(i + 1) for i in range(21)]]):
                raise Inconclusive("normalize() leaves a constant in %s" % COMP[k])
            continue
        Rl = Real(linear=False)
        T = z3.Real("total")
        for i in sub:
            Rl.memo[i] = T
        nv = Rl.get(new[k])
        okc = z3.Or([Rl.get(c) if type(c) is Node else z3.BoolVal(bool(c)) for v, c in leaves if v == 0])
        xk = Rl.fresh(NAMES[k])
        for key, cond in (("value:" + COMP[k], z3.And(okc, T > 0, nv * T != xk)), ("frame:" + COMP[k], z3.And(z3.Not(okc), nv != xk))):
            s = z3.Solver()
            s.add(cond)
            ck.obl += 1
            if ck.sat(s, 100) == "unsat":
                ck.disch += 1
                continue
            # equal up to rounding?  ask for a difference that double precision shows
            s2 = z3.Solver()
            e, (a, b) = q(1e-9), ((nv * T, xk) if key[0] == "v" else (nv, xk))
            s2.add(cond, xk >= -1000, xk <= 1000, T < 1e6, T > q(-1e6), z3.Or(a - b > e * z3.If(b < 0, -b, b), b - a > e * z3.If(b < 0, -b, b)))
            r2 = ck.sat(s2, 100)
            if r2 == "unsat" and key[0] == "v":
                ck.disch += 1
                continue
            mo = (s2 if r2 == "sat" else s).model()
            base = [num(mo, Rl, n) if n in Rl.vars else 0.0 for n in NAMES]
            vs = [[float(i + 1) for i in range(21)], [0.0] * k + [-3.0] + [0.0] * (20 - k), [-1.0] * 21, base,
                  [float("inf") if i == k else 1.0 for i in range(21)], [float("nan") if i == k else 1.0 for i in range(21)],
                  [1e-310 if i == k else 0.0 for i in range(21)], [1.7e308] * 21]
            tv = mo.eval(T, model_completion=True)
            try:
                tv = float(tv.as_fraction())
                b2 = list(base)
                b2[(k + 1) % 21] += tv - sum(base)
                vs.append(b2)
            except Exception:
                pass
            if not attempt(key, vs):
                raise Inconclusive("normalize(): %s not reproduced" % key)
    ck.samples.append("new %s = %s" % (COMP[0], X.show(new[0], 5)[:300]))


# ------------------------------------------------------------------------------------------ C03
def c03(ck):
    S = Sess(native=("3",))
    N, L = S.N, Lib(S.N)
    ck.bounds += ["every value of the 21 components; models with arbitrary mole fractions and arbitrary contents of every cell a calculation writes"]
    ck.assumptions += ["floating-point arithmetic is uninterpreted (equal terms are bit-identical)"]
    E = S.engine()
    st = EX.State()
    o = comp_obj(S, E, st)
    _, want = one(E.run("@vh_c_check", [o], st), E, "check()")
    S.note(E)
    wl = dict(rcleaves(want))
    for m in "dg":
        E = S.engine()
        st = EX.State()
        o = S.model(E, st, m)
        S.havoc(E, st, m, o)
        off = 1 if m == "g" else 0
        S.put(E, st, m, o, "x", [X.var("y%d" % k) for k in range(21)])
        before, s0 = S.snap(st, o), st.fork()
        c = comp_obj(S, E, st)
        r = E.run("@vh_%s_set" % m, [o, c], st)
        S.note(E)
        st, ret = one(r, E, "set_composition")
        after = S.snap(st, o)
        leaves = rcleaves(ret)
        got = dict(leaves)
        Rl = Real()
        B = lambda k: Rl.get(k) if type(k) is Node else z3.BoolVal(bool(k))
        acc = B(wl.get(0, 0))
        unsure = []

        def case(rc):
            """compositions that draw the given verdict"""
            good = [1.0 / 21] * 21
            bad = {1: [0.0] * 21, 2: [0.9] + [0.5] * 20, 0: [(i + 1) / 231.0 for i in range(21)]}
            return [bad[rc], good] + [[0.0] * k + [1.0] + [0.0] * (20 - k) for k in range(21)] + [
                [f / 21] * 21 for f in (0.991, 0.994, 0.997, 0.9995, 1.0005, 1.003, 1.006, 1.009)]

        def concrete(v, old=None):
            """what is wrong with setting composition v on a used model, or None"""
            i = N.new(m)
            i.setx(old or [0.03 + 0.001 * k for k in range(21)])
            i.t, i.d, i.p = 300.0, 2.0, 5000.0
            i.properties()
            b0 = ctypes.string_at(i.a, N.size[m])
            r = N.lib.__getattr__("vh_%s_set" % m)(ctypes.c_void_p(i.a), L.comp(v))
            w = L.check(v)
            if r != w:
                return "answers %s, check() answers %s" % (RC.get(r, r), RC.get(w, w))
            xs = i.getx()
            if w == 0:
                for k in range(21):
                    if X.bits(xs[k + off]) != X.bits(v[k]):
                        return "leaves x[%d] = %r, %s is %r" % (k + off, xs[k + off], COMP[k], v[k])
                if off and xs[0] != 0:
                    return "leaves x[0] = %r" % xs[0]
            elif ctypes.string_at(i.a, N.size[m]) != b0:
                return "is rejected but changes the model"
            return None

        def fail(key, vs, old):
            for v, y in [(vs[0], old)] + [(v, None) for v in vs] + [(v, [a * 1.0 if k % 3 else 0.5 * a for k, a in enumerate(v)]) for v in vs[1:]]:
                w = concrete(v, y)
                if w:
                    ck.violation("%s:%s" % (m, key), "%s.set_composition(%s) %s (mole fractions before: %r)" % (DEC[m], show(v), w, y), dict(model=m, c=v, old=y))
                    return
            unsure.append("%s.set_composition: %s not reproduced" % (DEC[m], key))

        def query(key, cond, vs):
            s = z3.Solver()
            s.add(cond)
            ck.obl += 1
            if ck.sat(s, 100) == "unsat":
                ck.disch += 1
                return
            mo = s.model()
            fail(key, [[num(mo, Rl, n) for n in NAMES]] + vs, [num(mo, Rl, "y%d" % n) if "y%d" % n in Rl.vars else 0.04 for n in range(21)])
        for rc in set(wl) | set(got):
            query("verdict %s" % RC.get(rc, rc), B(wl.get(rc, 0)) != B(got.get(rc, 0)), case(0) + case(1) + case(2))
        xoff = N.off[m]["x"]
        for k in range(NX[m]):
            v = after.get(xoff + 8 * k)
            v = E.load(st, Ptr(o.obj, xoff + 8 * k), 8, True)
            w = Rl.fresh(NAMES[k - off]) if k >= off else z3.RealVal(0)
            query("x[%d]" % k, z3.And(acc, Rl.f(v) != w), case(0))
        ch = S.changed(E, st, N.size[m], before, after)
        for _, b, a in ch:
            query("frame", z3.And(z3.Not(acc), Rl.f(b) != Rl.f(a)), case(1) + case(2))
        from checks.iface import frame, wordsof
        offs = [k for k in S.statecells(m) if k not in set(c[0] for c in ch)]
        frame(ck, list(zip(wordsof(S, E, s0, m, o, offs), wordsof(S, E, st, m, o, offs))), N.size[m] // 8 - len(ch))
        if unsure and not ck.viol:
            raise Inconclusive("; ".join(unsure[:2]))
        for rc in wl:
            s = z3.Solver()
            s.add(B(wl[rc]))
            if ck.sat(s) == "sat":
                ck.witnesses += 1
        for v in case(0)[:3] + case(1)[:1] + case(2)[:1]:
            env = dict(zip(NAMES, v))
            env.update({"y%d" % k: 0.0 for k in range(21)})
            env.update({"h%d" % k: 0.0 for k in S.statecells(m)})
            val = X.evaluate([ret], env)[ret.id] if type(ret) is Node else ret
            i = N.new(m)
            if val != getattr(N.lib, "vh_%s_set" % m)(ctypes.c_void_p(i.a), L.comp(v)):
                raise Inconclusive("encoding of set_composition disagrees with the compiled code")
            ck.validated += 1
    ck.functions |= S.encoded
