"""C04: molar mass.  C17: ideal-gas limit at zero density."""
import math
import z3
from engine import cas as C, spec as SP, expr as X, exec as EX
from engine.session import Sess, OUTS, DEC, Ptr
from engine.real import Real
from engine.report import pmap, Inconclusive, q
from checks import eos

XMAX = 1000.0
REST = [f for f in OUTS] + ["t", "p", "d"]


def masses(m):
    return SP.table("detail")["MMI"] if m == "d" else SP.table("gerg")["MMI_GERG"][1:]


def symbolic_rest(S, E, st, m, o, skip=()):
    for f in REST:
        if f not in skip:
            S.put(E, st, m, o, f, X.var("old_" + f))


def linear_claim(ck, name, node, M, names, replay):
    """|node - sum M_i x_i| <= 1e-11 sum M_i |x_i| for all x in [-XMAX, XMAX]"""
    Rl = Real()
    xs = [Rl.fresh(n) for n in names]
    box = [z3.And(x >= -XMAX, x <= XMAX) for x in xs]
    if type(node) is X.Node:
        for n in X.topo([node]):
            if n.op == "ite" and n.kind == "f":
                # alternatives that are the same number where they are not chosen
                c, a, b = (Rl.get(v) for v in n.args)
                for keep, cond in ((a, z3.Not(c)), (b, c)):
                    s = z3.SolverFor("QF_LRA")
                    s.add(*box)
                    s.add(cond, z3.simplify(a - b) != 0)
                    if ck.sat(s, 20) == "unsat":
                        Rl.memo[n.id] = keep
                        break
    t = Rl.f(node)
    ab = [z3.Real("abs_" + n) for n in names]

    def solver():
        s = z3.SolverFor("QF_LRA")
        s.add(*box)
        return s
    s = solver()
    sm = z3.Sum([q(c) * x for c, x in zip(M, xs)])
    d = t - sm
    for a, x in zip(ab, xs):
        s.add(a >= x, a >= -x)
    tol = q(1e-11) * z3.Sum([q(c) * a for c, a in zip(M, ab)])
    s.add(z3.Or(d > tol, -d > tol))
    ck.obl += 1
    # a difference that double precision shows, if there is one
    s.push()
    s.add(z3.And([a <= 1 for a in ab]), z3.Or(d > q(1e-3), -d > q(1e-3)))
    r = ck.sat(s, 60)
    if r != "sat":
        s.pop()
        r = ck.sat(s, 120)
    if r == "unsat":
        ck.disch += 1
        # vacuity: a reference that is off in one coefficient is refuted
        s2 = solver()
        s2.add(t - sm - q(1e-6) * xs[7] * q(M[7]) != 0, xs[7] > 0)
        if ck.sat(s2, 120) != "sat":
            raise Inconclusive("%s: comparison accepts a wrong molar mass" % name)
        ck.witnesses += 1
        return
    mo = s.model()

    def val(n):
        v = mo.eval(Rl.fresh(n), model_completion=True)
        return float(v.as_fraction()) if z3.is_rational_value(v) else 0.0
    replay(name, {n: val(n) for n in set(list(Rl.vars) + list(names))})


def c04(ck):
    S = Sess(native=("3",))
    eos.S = S
    N = S.N
    ck.bounds += ["all 21 mole fractions free in [-%g, %g]" % (XMAX, XMAX), "histories: none; one molar_mass() with another composition "
                  "before; one properties() with another composition (all 21 present) before",
                  "properties() after pressure(), properties() + pressure() or pressure() + molar_mass() with the same composition (all 21 present)",
                  "after properties(): every single component, every pair, all 21"]
    ck.assumptions += ["arithmetic over the reals, equality up to a relative 1e-11"]
    for m in "dg":
        M = masses(m)
        names = ["x%d" % i for i in range(21)]
        xs = [X.var(n) for n in names]
        ffi = ("@aga8_" if m == "d" else "@gerg_") + "calculate_molar_mass"

        def replayer(hist, field):
            def rep(name, v):
                if S.written_statics():     # leave something behind in state shared by models
                    j = N.new(m)
                    j.setx([1.0 / 21] * 21)
                    j.molar_mass()
                i = N.new(m)
                if hist:
                    i.setx([v.get("y%d" % k, 1.0 / 21) for k in range(21)])
                    i.t, i.d = 300.0, 5.0
                    i.molar_mass() if hist == 1 else i.properties()
                for f in REST:
                    if "old_" + f in v:
                        setattr(i, f, v["old_" + f])
                x = [v[n] for n in names]
                i.setx(x)
                want = sum(a * b for a, b in zip(M, x))
                if field == "ffi":
                    got = getattr(N.lib, ffi[1:])(eos_ptr(i))
                else:
                    got = i.molar_mass()
                    if field == "mm":
                        got = i.mm
                if not abs(got - want) <= 1e-10 * sum(abs(a * b) for a, b in zip(M, x)):
                    ck.violation("%s:%s" % (DEC[m], name), "%s %s: composition %r gives %r, sum of x*M is %r" % (
                        DEC[m], name, {n: v[n] for n in names if v[n]}, got, want), dict(x=x, got=got, want=want, inputs=v))
                else:
                    raise Inconclusive("%s %s: counterexample not reproduced" % (DEC[m], name))
            return rep
        for hist in (0, 1, 2):
            for via in ("rust", "ffi"):
                R = None
                if hist == 2:
                    rg = {"y%d" % k: eos.XR for k in range(21)}
                    rg.update(th=eos.TR, dh=eos.DR)
                    R = eos.SumRanges(rg, ["y%d" % k for k in range(21)])
                E = S.engine(R.decide if R else None)
                st = EX.State()
                o = S.model(E, st, m)
                if hist:
                    S.put(E, st, m, o, "x", [X.var("y%d" % k) for k in range(21)])
                    if hist == 2:
                        S.put(E, st, m, o, "t", X.var("th"))
                        S.put(E, st, m, o, "d", X.var("dh"))
                    r = S.call(E, m, "molar_mass" if hist == 1 else "properties", o, st)
                    if len(r) != 1:
                        raise Inconclusive("%d outcomes of the earlier call" % len(r))
                    st = r[0][0]
                symbolic_rest(S, E, st, m, o)
                S.put(E, st, m, o, "x", xs)
                r = S.call(E, m, "molar_mass", o, st) if via == "rust" else E.run(ffi, [o], st)
                S.note(E)
                if len(r) != 1 or E.events:
                    raise Inconclusive("molar_mass: %d outcomes, %r" % (len(r), E.events[:2]))
                st, ret = r[0]
                if m == "d" or via == "ffi":
                    linear_claim(ck, "%s return value, history %d" % (via, hist), ret, M, names, replayer(hist, "ret" if via == "rust" else "ffi"))
                linear_claim(ck, "%s field mm, history %d" % (via, hist), S.get(E, st, m, o, "mm"), M, names, replayer(hist, "mm"))
                if not hist:
                    env = {"x%d" % k: ck.rng.random() for k in range(21)}
                    env.update({"old_" + f: 7.0 for f in REST})
                    i = N.new(m)
                    i.setx([env[n] for n in names])
                    i.molar_mass()
                    v = S.get(E, st, m, o, "mm")
                    if abs(X.evaluate([v], env)[v.id] - i.mm) > 1e-12 * i.mm:
                        raise Inconclusive("encoding of molar_mass disagrees with the compiled code")
                    ck.validated += 1
        after_pressure(ck, S, m, M, names, xs)
        ck.functions |= S.encoded
    P = [("%s" % m, p) for m in "dg" for p in [(i,) for i in range(21)] + list(__import__("itertools").combinations(range(21), 2))
         + [tuple(range(21))]]
    for m in "dg":
        S.image(m)
    res = pmap(ck, after_props, P)
    for (m, p), bad in zip(P, res):
        if bad and len(ck.viol) < 3:
            for xs, t, d in bad[0][3] + [eos.state(ck, p)]:
                i = N.new(m)
                i.setx(xs)
                i.t, i.d = t, d
                i.properties()
                want = sum(a * b for a, b in zip(masses(m), xs))
                if not abs(i.mm - want) <= 1e-10 * want:
                    break
            else:
                raise Inconclusive("mm after properties differs in the encoding only: %r" % (bad,))
            ck.violation("%s:properties" % DEC[m], "%s: properties() reports molar mass %r, sum of x*M is %r (components %r)" % (
                DEC[m], i.mm, want, p), dict(x=xs, t=t, d=d))
    if ck.problems:
        raise Inconclusive("; ".join(ck.problems[:2]))


def after_pressure(ck, S, m, M, names, xs):
    """properties() after one or two pressure() calls with the same composition"""
    N = S.N
    for before in (("pressure",), ("properties", "pressure"), ("pressure", "molar_mass")):
        rg = {"x%d" % k: eos.XR for k in range(21)}
        rg.update(th=eos.TR, dh=eos.DR, t=eos.TR, d=eos.DR)
        R = eos.SumRanges(rg, names)
        E = S.engine(R.decide)
        st = EX.State()
        o = S.model(E, st, m)
        S.put(E, st, m, o, "x", xs)
        steps = before + ("properties",)
        for k, op in enumerate(steps):
            S.put(E, st, m, o, "t", X.var("t" if k == len(steps) - 1 else "th"))
            S.put(E, st, m, o, "d", X.var("d" if k == len(steps) - 1 else "dh"))
            r = S.call(E, m, op, o, st)
            if len(r) != 1 or E.events:
                raise Inconclusive("%s after %s: %d outcomes" % (op, before[:k], len(r)))
            st = r[0][0]
        S.note(E)

        def rep(name, v):
            i = N.new(m)
            x = [v.get(n) or 1.0 / 21 for n in names]
            want = sum(a * b for a, b in zip(M, x))
            for op in steps:
                i.setx(x)
                i.t, i.d = (310.0, 4.0) if op == "properties" else (300.0, 5.0)
                getattr(i, op)()
            if abs(i.mm - want) <= 1e-10 * want:
                raise Inconclusive("%s %s: counterexample not reproduced" % (DEC[m], name))
            ck.violation("%s:%s" % (DEC[m], name), "%s %s: composition %r gives %r, sum of x*M is %r" % (
                DEC[m], name, x, i.mm, want), dict(x=x, got=i.mm, want=want, calls=steps))
        linear_claim(ck, "field mm, %s" % ", ".join(steps), S.get(E, st, m, o, "mm"), M, names, rep)


def eos_ptr(i):
    import ctypes
    return ctypes.c_void_p(i.a)


def after_props(ck, item):
    m, present = item
    eos.M = m
    out, R, names = eos.encode(ck, m, present)
    c = C.CAS()
    T, D, xs = eos.setup(c, m, present)
    ref = {}
    for i in present:
        c.add_into(ref, xs[i + (m == "g")], masses(m)[i])

    def body(sp):
        cmp = eos.Cmp(ck, c, names, present)
        cmp.eq("mm", eos.lowered(C.Lower(c, choose=sp.choose, ranges=R), out, ["mm"])["mm"], ref)
        return cmp.fails
    return eos.cases(ck, present, body, R)


# ------------------------------------------------------------------------------------------ C17
def zero_refs(c, m, G, T):
    r = c.scale(T, eos.RR[m])
    w2 = c.scale(c.mul(c.mul(G["cp"], c.power(G["cv"], -1.0)), c.mul(r, c.power(G["mm"], -1.0))), 1000.0)
    return dict(p={}, z=c.const(1.0), dp_dd=r, cp=c.add(G["cv"], c.const(eos.RR[m])), h=c.add(G["u"], r)), w2


def zero_one(ck, item):
    m, present = item
    out, R, names = eos.encode(ck, m, present, dzero=True)
    pout, PR, _ = eos.encode(ck, m, present, "pressure", dzero=True)
    if len(present) != 2 or present[0] % 6 == 0:
        eos.validate(ck, m, out, present, dzero=True)
    c = C.CAS()
    T, D, xs = eos.setup(c, m, present)

    def body(sp):
        L = C.Lower(c, choose=sp.choose, ranges=R)
        G = eos.lowered(L, out, ("p", "z", "dp_dd", "cp", "cv", "h", "u", "mm") + (("pfield",) if m == "d" else ()))
        ref, w2 = zero_refs(c, m, G, T)
        cmp = eos.Cmp(ck, c, names, present)
        for f in ref:
            cmp.eq(f, G[f], ref[f])
        if m == "d":
            cmp.eq("stored p", G["pfield"], {})
        P = eos.lowered(C.Lower(c, choose=sp.choose, ranges=PR), pout, ("p", "z"), "pressure() ")
        cmp.eq("pressure() p", P["p"], {})
        cmp.eq("pressure() z", P["z"], c.const(1.0))
        # cp, cv and mm positive at zero density: then the argument of the root is w2; elsewhere it is cut off
        eos.sound(ck, cmp, L, out, w2, None, sp, G["mm"])
        if not sp.asg and not cmp.fails and len(present) != 2:
            cmp.twin("h", G["h"], ref["h"])
        return cmp.fails
    return [(m,) + f for f in eos.cases(ck, present, body, R, dzero=True)]


def zero_replay(ck, m, present, f, wits=()):
    worst = None
    for k in range(-len(wits), 60):
        xs, t, d = wits[k] if k < 0 else eos.state(ck, present, True)
        r = eos.RR[m]
        o = eos.native(m, xs, t, 0.0)
        po = eos.native(m, xs, t, 0.0, "pressure")
        got, want = {
            "p": (o["p"], 0.0), "stored p": (o["pfield"], 0.0), "z": (o["z"], 1.0), "dp_dd": (o["dp_dd"], r * t),
            "cp": (o["cp"] - o["cv"], r), "h": (o["h"] - o["u"], r * t), "pressure() p": (po["p"], 0.0), "mm": (o["mm"], o["mm"]), "cv": (o["cv"], o["cv"]), "u": (o["u"], o["u"]),
            "pfield": (o["pfield"], 0.0), "pressure() z": (po["z"], 1.0),
            "w": (o["w"], math.sqrt(1000 * o["cp"] / o["cv"] * r * t / o["mm"]) if o["cp"] / o["cv"] > 0 else 0.0)}[f]
        e = abs(got - want) / max(abs(want), abs(o["h"]) * 1e-6 if f == "h" else 0, abs(o["cp"]) * 1e-6 if f == "cp" else 0, 1e-9)
        if e != e or e > 1e-8:
            if worst is None or e != e or e > worst["rel"]:
                worst = dict(x=xs, t=t, d=0.0, got=got, want=want, rel=e)
    return worst


def c17(ck):
    eos.S = S = Sess(native=("3",))
    items = []
    for m in "dg":
        S.image(m)
        items += [(m, p) for p in eos.patterns(ck, m)]
    ck.bounds += ["d = 0, T in [%g, %g] K, each present mole fraction in [%g, %g], others exactly 0" % (eos.TR + eos.XR),
                  "%d presence patterns over both models (all single components, all pairs, all 21, all but one, larger subsets)" % len(items)]
    ck.assumptions += ["arithmetic is over the reals", "mole fractions of the present components sum to one"]
    for part in ([i for i in items if len(i[1]) == 1], [i for i in items if len(i[1]) == 2], [i for i in items if len(i[1]) > 2]):
        if not ck.viol:
            zero_stage(ck, part)


def zero_stage(ck, items):
    res = pmap(ck, zero_one, items)
    fails = sorted([f for r in res for f in r or []], key=lambda f: (len(f[1]), not f[4]))
    tried = {}
    for m, present, f, bad, wits in fails:
        tried[f] = tried.get(f, 0) + 1
        if tried[f] > 6:
            continue
        if len(ck.viol) >= 3:
            break
        hit = zero_replay(ck, m, present, f, wits)
        if hit:
            ck.violation("%s:%s:%s" % (m, f, ",".join(map(str, present))),
                         "%s at zero density, T=%.10g, components %s: %s is %r, the ideal-gas value is %r" % (
                             DEC[m], hit["t"], [eos.X_NAMES[i] for i in present], f, hit["got"], hit["want"]), hit)
    if ck.problems:
        raise Inconclusive("; ".join(ck.problems[:2]))
    if fails and not ck.viol and not ck.found:
        raise Inconclusive("%d equalities not established, none reproduced: %r" % (len(fails), fails[:2]))
    if ck.found:
        ck.disch += len(fails)
