"""C04, C05, C06, C07, C08, C17: what the property calculations compute, as real functions of T, d and composition."""
import math, itertools, time
from engine import cas as C, spec as SP, expr as X, exec as EX
from engine.session import Sess, Ranges, OUTS, DEC, Ptr
from engine.facts import SumRanges
from engine.report import pmap, decide_zero, Inconclusive

TOL = 1e-9
TR, DR, XR = (10.0, 10000.0), (1.1e-15, 1000.0), (1e-12, 1.1)
S = None
M = None


# what an earlier calculation may have left in the result fields (symbolic in the encoding, these values in replays)
LEFT = {f: 17.0 + 3.0 * k for k, f in enumerate(OUTS)}


def encode(ck, m, present, op="properties", dzero=False):
    """symbolic run of one operation; components not in `present` are exactly zero"""
    names = ["x%d" % i for i in present]
    pure = len(present) == 1
    rg = {n: XR for n in names}
    rg.update(t=TR, d=DR)
    R = SumRanges(rg, [] if pure else names)
    E = S.engine(R.decide)
    E.deadline = ck.deadline
    st = EX.State()
    xs = [(1.0 if pure else X.var("x%d" % i)) if i in present else 0.0 for i in range(21)]
    o = S.model(E, st, m, x=xs, t=X.var("t"), d=0.0 if dzero else X.var("d"), p=X.var("p"))
    for f in OUTS:
        S.put(E, st, m, o, f, X.var("old_" + f))
    r = S.call(E, m, op, o, st)
    ck.functions |= S.encoded
    if not r or E.events:
        raise Inconclusive("%s.%s: %d outcomes, events %r" % (m, op, len(r), [(k, i) for k, i, _ in E.events][:3]))
    res = None
    for st, ret in reversed(r):
        out = {f: S.get(E, st, m, o, f) for f in OUTS}
        if m == "d" and op == "properties":
            out["pfield"] = S.get(E, st, m, o, "p")
        out["p"] = ret
        # several ways through the code: one value, chosen by the path condition
        res = out if res is None else {f: EX.merge_val(st.pcnode(), out[f], res[f]) for f in out}
    return res, R, names


def state(ck, present, dzero=False, k=0):
    """a concrete state inside the stated ranges"""
    g = ck.rng
    n = len(present)
    w = [g.random() ** 2 + 1e-3 for _ in present]
    xs = [0.0] * 21
    for i, v in zip(present, w):
        xs[i] = v / sum(w)
    return xs, g.choice([130.0, 200.0, 250.0, 300.0, 400.0, 600.0, 1000.0]) * (1 + 0.1 * g.random()), \
        0.0 if dzero else g.choice([1e-3, 0.1, 1.0, 3.0, 8.0, 15.0, 25.0]) * (1 + 0.1 * g.random())


def native(m, xs, t, d, op="properties", lib=None):
    i = (lib or S.N).new(m)
    i.setx(xs)
    for f, v in LEFT.items():
        setattr(i, f, v)
    i.t, i.d, i.p = t, d, 5.0
    r = i.properties() if op == "properties" else (i.pressure() if op == "pressure" else i.molar_mass())
    o = i.outs()
    o["pfield"] = i.p
    o["p"] = r
    return o


def env_of(xs, t, d):
    e = {"x%d" % i: v for i, v in enumerate(xs)}
    e.update(t=t, d=d, p=5.0)
    e.update(("old_" + f, v) for f, v in LEFT.items())
    return e


def close(a, b, rel=1e-9):
    return a == b or (a != a and b != b) or abs(a - b) <= rel * max(abs(a), abs(b)) or max(abs(a), abs(b)) < 1e-290


def validate(ck, m, out, present, op="properties", dzero=False):
    """the encoding evaluated at a concrete state gives what the compiled code gives"""
    xs, t, d = state(ck, present, dzero)
    nat = native(m, xs, t, d, op)
    env = env_of(xs, t, d)
    roots = [n for n in out.values() if type(n) is X.Node]
    val = X.evaluate(roots, env)
    for f, n in out.items():
        v = val[n.id] if type(n) is X.Node else n
        if not close(v, nat[f], 1e-7):
            raise Inconclusive("encoding of %s %s.%s disagrees with the compiled code: %r, native %r at %r" % (
                m, op, f, v, nat[f], (present, t, d)))
    ck.validated += 1
    ck.witnesses += 1


# ------------------------------------------------------------- case split over conditions the ranges do not decide
class Split:
    """one case: undecided conditions take the values of asg, all others those of a typical state"""

    def __init__(self, asg, env, ranges):
        self.asg, self.env, self.ranges, self.seen = asg, env, ranges, {}

    def choose(self, c):
        if c.op == "not":
            return not self.choose(c.args[0])
        if c.op in ("and", "or"):
            vs = []
            for a in c.args:
                v = self.ranges.decide(None, a)
                vs.append(bool(self.choose(a) if v is None else v))
            return all(vs) if c.op == "and" else any(vs)
        if c not in self.seen:
            v = self.asg.get(c)
            if v is None:
                v = bool(X.evaluate([c], self.env)[c.id])
            self.seen[c] = v
        return self.seen[c]


class Poison(Exception):
    pass


def cases(ck, present, body, ranges, dzero=False, limit=14):
    """body(split) -> failures; run for every case.  Failures carry states at which their case applies."""
    xs, t, d = state(ck, present, dzero)
    env = env_of(xs, t, d)
    todo, done, fails, n = [{}], set(), [], 0
    while todo:
        sp = Split(todo.pop(0), env, ranges)
        try:
            fs = body(sp)
        except Poison as e:
            ck.obl += 1
            fs = [(present, e.args[0], ["the value is not finite"])]
        seen = list(sp.seen.items())
        key = frozenset((c.id, v) for c, v in seen)
        if key in done:
            continue
        done.add(key)
        n += 1
        if fs:
            w = witnesses(ck, present, seen, dzero) if seen else []
            if w is None:                     # the solver shows that no state is in this case
                ck.disch += len(fs)
            else:
                fails += [f + (w,) for f in fs]
        if n >= limit:
            if todo:
                ck.extra["case_splits_cut"] = 1
            break
        if len(sp.asg) < 3:
            for c, v in seen:
                if c not in sp.asg:
                    a = dict(sp.asg)
                    a[c] = not v
                    todo.append(a)
    if n > 1:
        ck.extra["patterns_with_case_splits"] = 1
    return fails


def wide(ck, present, dzero):
    g = ck.rng
    w = [10.0 ** g.uniform(-9, 0) if g.random() < 0.5 else g.random() + 1e-3 for _ in present]
    xs = [0.0] * 21
    for i, v in zip(present, w):
        xs[i] = v / sum(w)
    return xs, math.exp(g.uniform(math.log(12.0), math.log(4000.0))), 0.0 if dzero else 10.0 ** g.uniform(-14, 1.6)


def witnesses(ck, present, conds, dzero, want=6):
    """states in the case; None when the solver shows that there are none"""
    import z3
    from engine.real import Real
    roots = [c for c, _ in conds]
    size = len(X.topo(roots))
    out = []
    for k in range(max(60, min(6000, 400000 // (size + 1)))):
        xs, t, d = (wide if k % 3 else state)(ck, present, dzero)
        val = X.evaluate(roots, env_of(xs, t, d))
        if all(bool(val[c.id]) == v for c, v in conds):
            out.append((xs, t, d))
            if len(out) >= want:
                return out
    if out or size > 4000:
        return out
    Rl = Real(linear=False)
    s = z3.Solver()
    for c, v in conds:
        s.add(Rl.get(c) if v else z3.Not(Rl.get(c)))
    rg = {"x%d" % i: XR for i in present}
    rg.update(t=TR, d=DR)
    for n, (lo, hi) in rg.items():
        if n in Rl.vars:
            s.add(Rl.vars[n] >= z3.RealVal(repr(lo)), Rl.vars[n] <= z3.RealVal(repr(hi)))
    xv = [Rl.fresh("x%d" % i) for i in present]
    if len(present) > 1:
        s.add(z3.Sum(xv) == 1)
        s.add(*[x > 0 for x in xv])
    try:
        r = ck.sat(s, 20)
    except Inconclusive:                      # not known whether the case is possible: the failure stays, without a state
        return out
    if r == "unsat":
        return None
    if r == "sat":
        mo = s.model()

        def val(n, dflt):
            v = mo.eval(Rl.fresh(n), model_completion=True) if n in Rl.vars else None
            if v is None:
                return dflt
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            return float(v.as_fraction()) if z3.is_rational_value(v) else dflt
        xs = [0.0] * 21
        for i in present:
            xs[i] = 1.0 if len(present) == 1 else val("x%d" % i, 1.0 / len(present))
        t, d = val("t", 300.0), 0.0 if dzero else val("d", 1.0)
        v = X.evaluate(roots, env_of(xs, t, d))
        if all(bool(v[c.id]) == b for c, b in conds):
            out.append((xs, t, d))
    return out


def lowered(L, out, fields, tag=""):
    G = {}
    for f in fields:
        try:
            G[f] = L.get(out[f])
        except C.DivZero:
            raise Poison(tag + f)
    return G


def sumsub(c, A, names):
    """replace x_last by 1 - (other x) wherever it occurs linearly in A"""
    a = c.names.get(names[-1])
    R, sub = {}, None
    for m, v in A.items():
        e = dict(c.mt[m]).get(a, 0.0)
        if e == 1.0:
            if sub is None:
                sub = c.const(1.0)
                for n in names[:-1]:
                    c.add_into(sub, c.var(n), -1.0)
            rest = c.mm(m, c.mono(((a, -1.0),)))
            c.add_into(R, c.mulmono(sub, rest, v))
        else:
            c.add_into(R, {m: v})
    return R


class Cmp:
    """equality obligations of one encoding"""

    def __init__(self, ck, c, names, tag):
        self.ck, self.c, self.names, self.tag, self.fails = ck, c, names, tag, []
        self.refs = {}

    def eq(self, f, P, ref, rel=False, tol=TOL):
        c = self.c
        d = c.add(P, ref, -1.0)
        d, ok = c.normal(d, tol)
        if not ok and rel and len(self.names) > 1:
            d2 = sumsub(c, c.residue(d, tol), self.names)
            d2, ok = c.normal(d2, tol)
            d = d2
        bad = decide_zero(self.ck, c, d, tol)
        self.ck.obl += 1
        if bad:
            self.fails.append((self.tag, f, bad[:3]))
        else:
            self.ck.disch += 1
        return not bad

    def twin(self, f, P, ref):
        """vacuity guard: the same comparison against a slightly different reference must fail"""
        d = self.c.add(P, self.c.scale(ref, 1 + 1e-6), -1.0)
        if not decide_zero(self.ck, self.c, d, TOL):
            raise Inconclusive("comparison of %s accepts a wrong reference" % f)
        self.ck.witnesses += 1


def setup(c, m, present, dzero=False):
    T = c.var("t")
    D = {} if dzero else c.var("d")
    pure = len(present) == 1
    xs = {i + (m == "g"): c.const(1.0) if pure else c.var("x%d" % i) for i in present}
    return T, D, xs


# ------------------------------------------------------------------------------------------ C05, C06
SPECF = ("p", "z", "u", "s", "h", "g", "cv")


def spec_one(ck, present):
    m = M
    out, R, names = encode(ck, m, present)
    pout, PR, _ = encode(ck, m, present, "pressure")
    if len(present) <= 1 or present[0] % 4 == 0 or len(present) > 2:
        validate(ck, m, out, present)
        validate(ck, m, {"p": pout["p"], "z": pout["z"]}, present, "pressure")
    c = C.CAS()
    T, D, xs = setup(c, m, present)
    A0, Ar, RR = SP.FN[m](c, xs, T, D)
    ref = SP.derive(c, A0, Ar, RR, T, D)

    def body(sp):
        cmp = Cmp(ck, c, names, present)
        L = C.Lower(c, choose=sp.choose, ranges=R)
        G = lowered(L, out, SPECF)
        for f in SPECF:
            cmp.eq(f, G[f], ref[f])
        if m == "d":
            cmp.eq("stored p", lowered(L, {"stored p": out["pfield"]}, ["stored p"])["stored p"], ref["p"])
        P = lowered(C.Lower(c, choose=sp.choose, ranges=PR), {"pressure()": pout["p"], "pressure() z": pout["z"]}, ["pressure()", "pressure() z"])
        cmp.eq("pressure()", P["pressure()"], ref["p"])
        cmp.eq("pressure() z", P["pressure() z"], ref["z"])
        if not sp.asg and not cmp.fails and (len(present) != 2 or present == (0, 1)):
            cmp.twin("p", G["p"], ref["p"])
        return cmp.fails
    return cases(ck, present, body, R)


def spec_replay(ck, m, present, f, wits=()):
    """largest relative disagreement between the compiled code and the reference over concrete states"""
    c = C.CAS()
    T, D, xs = setup(c, m, present)
    A0, Ar, RR = SP.FN[m](c, xs, T, D)
    ref = SP.derive(c, A0, Ar, RR, T, D)
    op, fld = ("pressure", "z" if f.endswith("z") else "p") if f.startswith("pressure()") else ("properties", f)
    key = fld
    if f == "stored p":
        key, fld = "p", "pfield"
    return search(ck, m, present, c, ref[key], lambda x, t, d: native(m, x, t, d, op)[fld], wits)


def search(ck, m, present, c, ref, nat, wits=(), dzero=False, n=400, thr=1e-8):
    best = None
    for k in range(-len(wits), n):
        xs, t, d = wits[k] if k < 0 else (wide if k % 4 == 3 else state)(ck, present, dzero)
        env = env_of(xs, t, d)
        P = ref(xs, t, d) if callable(ref) else ref
        if P is None:
            continue
        try:
            want, mag = real(number(c, P, env, k > 30)), real(number(c, P, env, k > 30, c.magnitude))
        except (OverflowError, ValueError, ZeroDivisionError):
            continue
        if not (math.isfinite(want) and math.isfinite(mag)):
            continue
        got = nat(xs, t, d)
        if not (math.isfinite(got)):
            if mag < 1e200 and mag > 1e-200:
                return dict(x=xs, t=t, d=d, got=repr(got), want=want, rel=math.inf)
            continue
        r = abs(got - want) / (mag + 1e-300)
        if best is None or r > best["rel"]:
            best = dict(x=xs, t=t, d=d, got=got, want=want, rel=r)
            if r > 1e-3:
                break
    return best if best and best["rel"] > thr else None


def patterns(ck, m):
    P = [(i,) for i in range(21)] + list(itertools.combinations(range(21), 2))
    P += [tuple(range(21))] + [tuple(i for i in range(21) if i != k) for k in range(21)]
    if ck.thorough:
        P += list(itertools.combinations(range(21), 3))
        P += [tuple(i for i in range(21) if i not in k) for k in itertools.combinations(range(21), 2)]
    else:
        r = list(range(21))
        for _ in range(24):
            P.append(tuple(sorted(ck.rng.sample(r, ck.rng.randint(3, 18)))))
    return sorted(set(P), key=lambda p: -len(p))


def stages(ck, fn, P, report):
    """small patterns first, so that a violation is reported without working through the large ones"""
    Q = [[p for p in P if len(p) == 1], [p for p in P if len(p) == 2], [p for p in P if len(p) > 2]]
    for part in Q:
        report(pmap(ck, fn, part))
        if ck.viol:
            ck.notes.append("stopped at the first violation")
            return


def report_fails(ck, res, replay, what):
    fails = [f for r in res for f in (r or [])]
    tried, seen = 0, set()
    for present, f, bad, wits in sorted(fails, key=lambda t: (len(t[0]), not t[3])):
        if len(ck.viol) >= 3 or tried > 24:
            break
        if sum(1 for a in seen if a[1] == f) >= 4 and len(set(a[1] for a in fails)) > 1:
            continue
        seen.add((present, f))
        tried += 1
        hit = replay(present, f, wits)
        if hit:
            comp = ", ".join("%s=%.6g" % (X_NAMES[i], hit["x"][i]) for i in present)
            ck.violation("%s:%s" % (f, ",".join(map(str, present))),
                         "%s: %s at T=%.10g d=%.10g [%s]: code %r, expected %.15g (rel. to terms %.2g); differing terms: %s"
                         % (what, f, hit["t"], hit["d"], comp, hit["got"], hit["want"], hit["rel"], bad), hit)
    if ck.problems:
        raise Inconclusive("; ".join(ck.problems[:2]))
    if fails and not ck.viol and not ck.found:
        raise Inconclusive("%d equalities not established and no concrete disagreement found: %r" % (
            len(fails), fails[:3]))
    if ck.found:
        ck.disch += len(fails)


def bounds(ck):
    ck.bounds += ["T in [%g, %g] K, d in [%g, %g] mol/l, each present mole fraction in [%g, %g], others exactly 0"
                  % (TR + DR + XR), "equal means every coefficient of every monomial agrees to a relative %g" % TOL]
    ck.assumptions += ["arithmetic is over the reals (rounding: see C20)", "mole fractions of the present components sum to one"]


def spec_check(ck, m):
    global S, M
    from engine.build import COMP
    S, M = Sess(native=("3",)), m
    S.image(m)
    P = patterns(ck, m)
    bounds(ck)
    ck.bounds.append("presence patterns: every single component, every pair, all 21, all but one%s: %d in total" % (
        ", every triple, all but two" if ck.thorough else ", 24 subsets of 3 to 18 drawn by the seed", len(P)))
    ck.samples += [str([COMP[i] for i in p]) for p in P[-3:]]
    stages(ck, spec_one, P, lambda res: report_fails(
        ck, res, lambda p, f, w: spec_replay(ck, m, p, f, w), "%s differs from its equation of state" % DEC[m]))
    ck.extra["presence_patterns"] = len(P)


def c05(ck):
    spec_check(ck, "d")


def c06(ck):
    spec_check(ck, "g")


from engine.build import COMP as X_NAMES


# ------------------------------------------------------------------------------------------ C07, C08
RR = {"d": SP.RDET, "g": SP.RGERG}


def choices(L, nodes, sp):
    """lower nodes under every combination of the conditions the case leaves open: [(assignment {cond: bool}, polys)]"""
    done, todo = [], [{}]
    while todo:
        asg = todo.pop()
        new = []

        def choose(c):
            neg = c.op == "not"
            b = c.args[0] if neg else c
            if b in asg:
                return asg[b] != neg
            if b in sp.seen or b in sp.asg or b.op in ("and", "or"):
                return sp.choose(b) != neg
            new.append(b)
            return None
        L2 = C.Lower(L.c, choose=choose, ranges=L.ranges)
        try:
            ps = [L2.get(n) for n in nodes]
            done.append((dict(asg), ps))
        except C.DivZero:
            raise Poison("w")
        except C.Unsupported:
            if not new or len(asg) > 3:
                raise
            for v in (0, 1):
                a = dict(asg)
                a[new[0]] = v
                todo.append(a)
    return done


BAD = X.var("not a square root")


def radicand(n, memo=None):
    """the expression whose root n is: through choices and cut-offs, with constants c >= 0 as c*c; BAD where n is no root"""
    memo = {} if memo is None else memo
    n = X.asnode(n)
    if n.id in memo:
        return memo[n.id]
    if n.op == "sqrt":
        r = n.args[0]
    elif n.op == "const":
        v = X.unbits(n.data)
        r = v * v if v >= 0 else BAD
    elif n.op == "ite":
        r = X.fite(n.args[0], *[X._unc(X.asnode(radicand(a, memo))) for a in n.args[1:]])
    elif n.op in ("fmax", "fmin"):
        a, b = n.args
        r = X.fite(X.fcmp("olt", X._unc(a), X._unc(b)), *[X._unc(X.asnode(radicand(q, memo)))
                                                         for q in ((b, a) if n.op == "fmax" else (a, b))])
    else:
        r = BAD
    memo[n.id] = r
    return r



def self_one(ck, present, only=None):
    m = M
    out, R, names = encode(ck, m, present)
    pout, PR, _ = encode(ck, m, present, "pressure")
    if len(present) <= 1 or present[0] % 4 == 0 or len(present) > 2:
        validate(ck, m, out, present)
    c = C.CAS()
    T, D, xs = setup(c, m, present)
    r = RR[m]
    rt = c.scale(T, r)
    iD, iT = c.power(D, -1.0), c.power(T, -1.0)

    def refs(sp):
        L = C.Lower(c, choose=sp.choose, ranges=R)
        G = lowered(L, out, ("p", "z", "u", "s", "h", "g", "cv", "cp", "dp_dd", "dp_dt", "d2p_dd2", "jt", "mm")
                    + (("d2p_dtd",) if m == "g" else ("pfield",)))
        p, u, s, cv, cp = (G[f] for f in ("p", "u", "s", "cv", "cp"))
        A = c.add(u, c.mul(T, s), -1.0)
        ref = dict(dp_dd=c.diff(p, "d"), dp_dt=c.diff(p, "t"), d2p_dd2=c.diff(c.diff(p, "d"), "d"),
                   z=c.mul(p, c.power(c.mul(rt, D), -1.0)),
                   s=c.scale(c.diff(A, "t"), -1.0), cv=c.diff(u, "t"), h=c.add(u, c.mul(p, iD)))
        ref["g"] = c.add(ref["h"], c.mul(T, s), -1.0)
        if m == "g":
            ref["d2p_dtd"] = c.diff(c.diff(p, "d"), "t")
        ref["p"] = c.mul(c.mul(D, D), c.diff(A, "d"))
        # level 2, from the reported first derivatives
        tq = c.mul(c.mul(T, iD), G["dp_dt"])                     # T/d dp_dt
        q2 = c.mul(c.mul(tq, c.mul(iD, G["dp_dt"])), c.power(G["dp_dd"], -1.0))
        ref["cp"] = c.add(cv, q2)
        j = c.add(c.mul(tq, c.power(G["dp_dd"], -1.0)), c.const(-1.0))
        ref["jt"] = c.mul(j, c.power(c.mul(cp, D), -1.0))
        ref["w2"] = c.scale(c.mul(c.mul(cp, c.power(cv, -1.0)), c.mul(G["dp_dd"], c.power(G["mm"], -1.0))), 1000.0)
        ref["kappa"] = c.mul(c.mul(ref["w2"], G["mm"]), c.power(c.scale(c.mul(rt, G["z"]), 1000.0), -1.0))
        # pressure() against properties()
        P = lowered(C.Lower(c, choose=sp.choose, ranges=PR), {"pressure()": pout["p"], "pressure() z": pout["z"]},
                    ["pressure()", "pressure() z"])
        ref.update(P)
        ref["stored p"] = p
        return L, G, ref

    def body(sp):
        cmp = Cmp(ck, c, names, present)
        try:
            L, G, ref = refs(sp)
        except C.DivZero as e:
            raise Poison("cp")
        for f in ("dp_dd", "dp_dt", "d2p_dd2", "z", "s", "cv", "h", "g") + (("d2p_dtd",) if m == "g" else ()):
            cmp.eq(f, G[f], ref[f])
        cmp.eq("p", G["p"], ref["p"], rel=True)
        cmp.eq("cp", G["cp"], ref["cp"])
        cmp.eq("jt", G["jt"], ref["jt"])
        sound(ck, cmp, L, out, ref["w2"], ref["kappa"], sp, G["mm"])
        cmp.eq("pressure()", G["p"], ref["pressure()"])
        cmp.eq("pressure() z", G["z"], ref["pressure() z"])
        if m == "d":
            cmp.eq("stored p", G["pfield"], G["p"])
        if not sp.asg and not cmp.fails and (len(present) != 2 or present == (0, 1)):
            cmp.twin("dp_dd", G["dp_dd"], ref["dp_dd"])
        return cmp.fails
    if only:
        known = []

        def refat(xs, t, d):
            env = env_of(xs, t, d)
            for seen, ref in known:
                val = X.evaluate(list(seen), env)
                if all(bool(val[k.id]) == v for k, v in seen.items()):
                    return ref
            if len(known) > 6:
                return None
            sp = Split({}, env, R)
            try:
                ref = refs(sp)[2]
            except (Poison, C.DivZero):
                ref = None
            known.append((dict(sp.seen), ref))
            return ref
        return c, refat
    return cases(ck, present, body, R)


def sound(ck, cmp, L, out, w2, kap, sp, mm):
    """w = sqrt(w2), zero where w2 is negative; kappa accordingly; w never negative"""
    import z3
    c = cmp.c
    w = out["w"]
    n, allroots, side = 0, True, {}

    def about(cond):
        """+1: cond says w2 < 0, -1: cond says w2 > 0, 0: something else"""
        a, b = L.get(X._unc(cond.args[0])), L.get(X._unc(cond.args[1]))
        df = c.add(a, b, -1.0)
        for q in (w2, c.mul(w2, mm)):         # a positive multiple of w2, also without the molar mass
            try:                              # which multiple can it be: look at one state
                k = float(number(c, df, sp.env) / number(c, q, sp.env))
            except (OverflowError, ValueError, ZeroDivisionError, TypeError):
                continue
            if math.isfinite(k) and c.normal(c.add(df, q, -k), TOL)[1]:
                return 1 if k > 0 else -1
        return 0
    for asg, ps in choices(L, [radicand(w)] + ([out["kappa"]] if kap is not None else []), sp):
        got, gk = ps[0], ps[-1]
        sign = None
        for cond, v in asg.items():
            if cond not in side:
                side[cond] = about(cond) if cond.op == "fcmp" and cond.data in ("olt", "ole") else 0
            sg = side[cond]
            if not sg:
                sp.choose(cond)               # a case of its own
                return sound(ck, cmp, L, out, w2, kap, sp, mm)
            sg = -sg if v else sg
            if sign is not None and sg != sign:
                sign = 0                      # contradictory: unreachable
            elif sign is None:
                sign = sg
        if sign == 0:
            continue
        n += 1
        zero = sign == -1
        if any(c.names.get(BAD.data) in dict(c.mt[k]) for k in got):
            allroots = False
            ck.obl += 1
            cmp.fails.append((cmp.tag, "w", ["w is not a square root"]))
            continue
        cmp.eq("w", got, {} if zero else w2)
        if sign is None and got and kap is not None and not (cmp.fails and cmp.fails[-1][1] == "w"):
            # no cut-off: only right if the square is never negative
            ck.obl += 1
            q, iv = X.asnode(radicand(w)), None
            while q.op == "ite":
                q = q.args[1 if L.pick(q) else 2]
            iv = L.ranges.iv(q)
            if not (iv is not None and iv[0] >= 0 or positive(c, w2)):
                cmp.fails.append((cmp.tag, "w", ["not cut off where its square is negative"]))
            else:
                ck.disch += 1
        if kap is not None:
            cmp.eq("kappa", gk, {} if zero else kap)
    if not n:
        raise Inconclusive("no reachable branch for the speed of sound")
    # w is a square root, hence never negative: decided bit-precisely
    if allroots and not ck.extra.get("w_sign_checked"):
        s = z3.Solver()
        a = z3.FP("a", z3.Float64())
        s.add(z3.fpLT(z3.fpSqrt(z3.RNE(), a), z3.FPVal(0.0, z3.Float64())))
        ck.obl += 1
        if ck.sat(s, 120) == "unsat":
            ck.disch += 1
            ck.extra["w_sign_checked"] = 1


def real(v):
    try:
        return float(v)
    except TypeError:
        raise ValueError("not a real number")


def number(c, P, env, plain=False, fn=None):
    """value of P at a state, in multiple precision where the terms overflow"""
    fn = fn or c.value
    try:
        return fn(P, env)
    except OverflowError:
        if plain:
            raise
        import mpmath
        e = {k: v for k, v in env.items() if k[0] != "#"}
        e["#cache"] = env.setdefault("#mp", {})
        with mpmath.workdps(60):
            return fn(P, e, mpmath)


def positive(c, P):
    """every term of P is positive, as are T, density and the mole fractions"""
    return all(v.real > 0 and all(c.kind[a] == "var" for a, _ in c.mt[m]) for m, v in P.items())


def self_replay(ck, m, present, f, wits=()):
    c, refat = self_one(ck, present, only=True)
    fld = {"stored p": "pfield", "pressure()": "p", "pressure() z": "z"}.get(f, f)

    def nat(x, t, d):
        return native(m, x, t, d)[fld]
    if f == "w":
        def nat2(x, t, d):
            w = native(m, x, t, d)["w"]
            return -1.0 if w < 0 else w * w
        return search_clip(ck, m, present, c, lambda *a: (refat(*a) or {}).get("w2"), nat2, wits)
    if f == "kappa":
        return search_clip(ck, m, present, c, lambda *a: (refat(*a) or {}).get(f), nat, wits, lambda *a: (refat(*a) or {}).get("w2"))
    if f in ("z", "u", "s", "h", "g", "cv", "cp", "p", "dp_dd", "dp_dt", "d2p_dd2", "d2p_dtd", "mm"):
        # a value that is not finite although pressure() is
        for k in range(-len(wits), 60):
            xs, t, d = wits[k] if k < 0 else state(ck, present)
            v = nat(xs, t, d)
            if not math.isfinite(v) and math.isfinite(native(m, xs, t, d, "pressure")["p"]) and t > 50:
                return dict(x=xs, t=t, d=d, got=repr(v), want=math.nan, rel=math.inf)
    return search(ck, m, present, c, lambda *a: (refat(*a) or {}).get(f), nat, wits)


def search_clip(ck, m, present, c, ref, nat, wits=(), clip=None):
    """as search(), for a quantity that is cut off at zero: compared on its own magnitude"""
    best = None
    for k in range(-len(wits), 400):
        xs, t, d = wits[k] if k < 0 else state(ck, present)
        P = ref(xs, t, d)
        if P is None:
            continue
        try:
            env = env_of(xs, t, d)
            v = real(number(c, P, env, k > 30))
            w2 = real(number(c, clip(xs, t, d), env, k > 30)) if clip else v
        except (OverflowError, ValueError, ZeroDivisionError):
            continue
        if not math.isfinite(v) or (clip and not abs(w2) > 1):
            continue
        want, got = v if w2 > 0 else 0.0, nat(xs, t, d)
        if got != got and 1e-3 < abs(v) < 1e12:
            return dict(x=xs, t=t, d=d, got=got, want=want, rel=math.inf)
        if abs(v) > 1e3 and math.isfinite(got) or (got < 0 and not clip) or (clip and w2 > 1 and want < -0.1 and math.isfinite(got)) or (v > 0.1 and math.isfinite(got)):
            r = abs(got - want) / max(abs(v), 1e-3)
            if best is None or r > best["rel"]:
                best = dict(x=xs, t=t, d=d, got=got, want=want, rel=r)
    return best if best and best["rel"] > 1e-6 else None


def self_check(ck, m):
    global S, M
    S, M = Sess(native=("3",)), m
    S.image(m)
    P = patterns(ck, m)
    bounds(ck)
    ck.bounds.append("%d presence patterns (all single components, all pairs, all 21, all but one, larger subsets)" % len(P))
    ck.samples += [str([X_NAMES[i] for i in p]) for p in P[-3:]]
    if m == "d":
        ck.notes.append("d2p_dtd of DETAIL is documented as not calculated and is left out")
    stages(ck, self_one, P, lambda res: report_fails(
        ck, res, lambda p, f, w: self_replay(ck, m, p, f, w), "%s is not self-consistent" % DEC[m]))
    ck.extra["presence_patterns"] = len(P)


def c07(ck):
    self_check(ck, "d")


def c08(ck):
    self_check(ck, "g")
