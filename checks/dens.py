"""C11, C12: what a density calculation's verdict and density mean.

The whole search is executed symbolically (every iteration, every path).  The states it evaluates are observed through the
compressibility factor it stores; pressure and slope at such a state are the expressions of a separate symbolic run of the
public pressure and property calculations with the density replaced, and become free reals.  What remains (the Newton step,
the exits, the verdict) is decided by the solver per exit, over reals with a not-a-number flag."""
import time, math, random, os, subprocess, sys
import z3
from fractions import Fraction
from engine import expr as X, exec as EX
from engine.expr import Node
from engine.exec import Ptr
from engine.session import Sess, NX, DEC
from engine.report import pmap, Inconclusive
from engine.build import OUTS, COMP
from checks import hist
from checks.hist import Rel, AX, XR, TR, nonempty, start, execute

GAS = {"d": 8.31451, "g": 8.314472}
STAB = ("ret", "dp_dd", "d2p_dtd", "cv", "cp", "w")


def rebuild(root, old, new, memo=None):
    """root with node old replaced by new"""
    if type(root) is not Node:
        return root
    memo = {} if memo is None else memo
    memo[old.id] = new
    dep = {}
    for n in X.topo([root]):
        if n.id in memo:
            continue
        if not any(memo.get(a.id, a) is not a for a in n.args):
            memo[n.id] = n
            continue
        a = [X._unc(memo[x.id]) if type(memo[x.id]) is Node else memo[x.id] for x in n.args]
        memo[n.id] = remake(n, a)
    r = memo[root.id]
    return r


def remake(n, a):
    o = n.op
    if o == "fcmp":
        return X.fcmp(n.data, *a)
    if o == "not":
        return X.bnot(a[0])
    if o == "and":
        return X.band(*a)
    if o == "or":
        return X.bor(*a)
    if o == "ite" and n.kind == "f":
        return X.fite(*a)
    if o == "bite":
        return X.bite(*a)
    if o == "powi":
        return X.fpowi(a[0], n.data)
    if n.kind == "f" and n.data is None:
        return X.fop(o, *a)
    raise Inconclusive("cannot replace the density under %s" % o)


class RN:
    """(real term, not-a-number flag) of nodes; whatever lies outside the cut terms becomes free"""

    def __init__(self, cut, stop, free):
        self.cut, self.stop, self.free = dict(cut), stop, set(free)
        self.memo, self.side, self.ins = {}, [], {}
        self.v, self.bv = {}, {}
        self.logs = []

    def real(self, name):
        if name not in self.v:
            self.v[name] = (z3.Real(name), z3.Bool("nan_" + name))
        return self.v[name]

    def inside(self, n):
        """only cut terms, the listed variables and constants occur in n"""
        st = [n]
        while st:
            m = st[-1]
            if m.id in self.ins:
                st.pop()
                continue
            if m.id in self.cut:
                self.ins[m.id] = True
            elif m.id in self.stop:
                self.ins[m.id] = False
            elif m.op == "var":
                self.ins[m.id] = m.data in self.free
            elif any(self.ins.get(a.id) is False for a in m.args):
                self.ins[m.id] = False
            else:
                todo = [a for a in m.args if a.id not in self.ins]
                if todo:
                    st.append(todo[0])
                    continue
                self.ins[m.id] = True
            st.pop()
        return self.ins[n.id]

    def opaque(self, n, *nan):
        t, b = self.real("u%d" % n.id)
        for x in nan:
            self.side.append(z3.Implies(x, b))
        return t, b

    def f(self, x):
        if type(x) is not Node:
            if x != x:
                return z3.RealVal(0), z3.BoolVal(True)
            if math.isinf(x):
                return self.real("inf%s" % ("m" if x < 0 else "p"))
            return z3.RealVal(str(Fraction(x))), z3.BoolVal(False)
        return self.get(x)

    def b(self, x):
        return self.get(x) if type(x) is Node else z3.BoolVal(bool(x))

    def get(self, n):
        st = [n]
        memo = self.memo
        while st:
            m = st[-1]
            if m.id in memo:
                st.pop()
                continue
            if m.id in self.cut:
                memo[m.id] = self.cut[m.id]
                st.pop()
                continue
            if m.kind == "f" and (m.id in self.stop or not self.inside(m) and m.op != "ite"):
                memo[m.id] = self.opaque(m)
                st.pop()
                continue
            if m.op == "fcmp" and not self.inside(m):
                memo[m.id] = z3.Bool("a%d" % m.id)
                st.pop()
                continue
            todo = [a for a in m.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[m.id] = self.op(m, [memo[a.id] for a in m.args])
            st.pop()
        return memo[n.id]

    def op(self, n, a):
        o = n.op
        if o == "const":
            return self.f(X.unbits(n.data))
        if o in ("true", "false"):
            return z3.BoolVal(o == "true")
        if o == "iconst":
            return z3.BitVecVal(n.data, n.width)
        if o == "var":
            if n.kind == "f":
                return self.real(n.data)
            return z3.BitVec(n.data, n.width) if n.kind == "i" else z3.Bool(n.data)
        if n.kind == "f":
            if o == "ite":
                return z3.If(a[0], a[1][0], a[2][0]), z3.If(a[0], a[1][1], a[2][1])
            if o in ("fadd", "fsub", "fmul"):
                (p, q), (r, s) = a
                t = p + r if o == "fadd" else (p - r if o == "fsub" else p * r)
                return t, z3.Or(q, s)
            if o == "fdiv":
                (p, q), (r, s) = a
                t, b = self.opaque(n, q, s)
                self.side.append(z3.Implies(r != 0, t * r == p))
                self.side.append(z3.Implies(z3.And(r != 0, z3.Not(q), z3.Not(s)), z3.Not(b)))
                return t, b
            if o == "fneg":
                return -a[0][0], a[0][1]
            if o == "fabs":
                return z3.If(a[0][0] < 0, -a[0][0], a[0][0]), a[0][1]
            if o == "exp":
                t, b = self.opaque(n, a[0][1])
                self.side.append(t > 0)
                return t, b
            if o == "log":
                t, b = self.opaque(n, a[0][1], a[0][0] <= 0)
                self.logs.append(n)
                x = n.args[0]
                if x.op in ("fdiv", "fmul"):
                    u, w = [self.get(X.fop("log", X._unc(y))) if type(X.fop("log", X._unc(y))) is Node else
                            self.f(X.fop("log", X._unc(y))) for y in x.args]
                    self.side.append(z3.Implies(z3.And(z3.Not(u[1]), z3.Not(w[1])),
                                                t == (u[0] - w[0] if x.op == "fdiv" else u[0] + w[0])))
                return t, b
            return self.opaque(n, *[y[1] for y in a if type(y) is tuple])
        if o == "fcmp":
            (p, q), (r, s) = a
            ok = z3.And(z3.Not(q), z3.Not(s))
            if n.data == "ord":
                return ok
            return z3.And(ok, {"olt": p < r, "ole": p <= r, "oeq": p == r, "one": p != r}[n.data])
        if o == "not":
            return z3.Not(a[0])
        if o == "and":
            return z3.And(*a)
        if o == "or":
            return z3.Or(*a)
        if o == "xor":
            return z3.Xor(*a)
        if o in ("ite", "bite"):
            return z3.If(a[0], a[1], a[2])
        if o == "icmp":
            return {"eq": lambda x, y: x == y, "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE,
                    "slt": lambda x, y: x < y, "sle": lambda x, y: x <= y, "sgt": lambda x, y: x > y,
                    "sge": lambda x, y: x >= y}[n.data[0]](a[0], a[1])
        return z3.Bool("b%d" % n.id) if n.kind == "b" else z3.BitVec("i%d" % n.id, n.width or 64)


def leaves(root, stop=()):
    """[(leaf, condition node)] of an ite tree of floats"""
    if type(root) is not Node or root.op != "ite" or root.id in stop:
        return [(root, 1)]
    order = []
    seen = set()
    st = [(root, 0)]
    while st:
        n, done = st.pop()
        if done:
            order.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, 1))
        if n.op == "ite" and n.id not in stop:
            st += [(a, 0) for a in n.args[1:] if a.id not in seen]
    sel = {root.id: 1}
    out = []
    for n in reversed(order):
        s = sel.get(n.id, 0)
        if n.op != "ite" or n.id in stop:
            out.append((X._unc(n), s))
            continue
        c, a, b = n.args
        sel[a.id] = X.bor(sel.get(a.id, 0), X.band(s, c))
        sel[b.id] = X.bor(sel.get(b.id, 0), X.band(s, X.bnot(c)))
    return out


def lifted(n, stop, depth=6):
    """[(value, condition)]: choices inside the last few operations of n, moved outwards"""
    if type(n) is not Node or n.id in stop or depth == 0:
        return [(n, 1)]
    if n.op == "ite" and n.kind == "f":
        out = []
        for L, c in leaves(n, stop):
            for v, c2 in lifted(L, stop, depth - 1):
                out.append((v, X.band(c, c2)))
        return out
    if n.op in ("exp", "log", "fneg", "fabs") or n.op in ("fadd", "fsub", "fmul", "fdiv"):
        parts = [lifted(X._unc(a), stop, depth - 1) for a in n.args]
        if all(len(q) == 1 for q in parts):
            return [(n, 1)]
        if len(parts) == 1:
            return [(X.fop(n.op, v), c) for v, c in parts[0]]
        a, b = parts
        if len(a) > 1 and len(b) > 1:
            ia = [c.id if type(c) is Node else c for _, c in a]
            ib = [c.id if type(c) is Node else c for _, c in b]
            if ia == ib:
                return [(X.fop(n.op, v, w), c) for (v, c), (w, _) in zip(a, b)]
            if len(a) * len(b) > 4000:
                return [(n, 1)]
        return [(X.fop(n.op, v, w), cc) for v, c in a for w, c2 in b for cc in [X.band(c, c2)] if cc != 0]
    return [(n, 1)]


class Run:
    """one symbolic execution of density() on a fresh model, with the evaluated states"""

    def __init__(self, ck, S, m):
        rg = {n: XR for n in AX}
        rg["at"] = TR
        self.m = m
        R = self.R = Rel(ck, rg, [nonempty(AX)])
        ref = {}
        for op in ("pressure", "properties"):
            E = S.engine(R.decide)
            st, o = start(S, E, m, AX, "at", "D", "ap")
            st, ret = execute(S, ck, R, m, op, st, o, E)
            ref[op] = {k: S.get(E, st, m, o, k) for k in OUTS + ["p"]}
            ref[op]["ret"] = ret
        self.ref = ref
        E = S.engine(R.decide)
        st, o = start(S, E, m, AX, "at", "ad", "ap")
        ev = []
        N = S.N

        zs = []

        def w(s2, v):
            d = E.load(s2, Ptr(o.obj, N.off[m]["d"]), 8, True)
            if d is not v:
                zs.append(1)
            ev.append((d, s2.pcnode()))
        E.watch = (o.obj, (N.off[m]["z"], N.off[m]["d"]), w)
        st, rc = execute(S, ck, R, m, "density", st, o, E)
        self.rc, self.d = rc, S.get(E, st, m, o, "d")
        self.codes = X.ileaves(rc) if type(rc) is Node else [(1, rc)]
        if self.codes is None:
            raise Inconclusive("the verdict is not a choice of constants")
        self.events, self.evals = ev, len(zs)
        D = X.var("D")
        P, Sl = ref["pressure"]["ret"], ref["properties"]["dp_dd"]
        self.states = []
        seen = set()
        dag = {n.id for n in X.topo([q for q in [rc, self.d] if type(q) is Node])}
        self.known = dag
        for e, pc in ev:
            if type(e) is not Node:
                continue
            if e.id in seen:       # later store at the same density: the evaluation itself
                self.states = [(a, b, c, pc if a is e else q) for a, b, c, q in self.states]
                continue
            seen.add(e.id)
            memo = {}
            p = rebuild(P, D, e, memo)
            if type(p) is Node and p.id in dag:
                self.states.append((e, p, rebuild(Sl, D, e, memo), pc))
        self.S = S

    def stab(self, L):
        """the checked quantities at the final density L (where the search evaluates them: at L or at a choice containing it)"""
        memo = {}
        if not hasattr(self, "final"):
            st = stops(self)
            self.final = {}
            for e in {id(e): e for e, _ in self.events if type(e) is Node}.values():
                for v, _ in lifted(e, st - {e.id}):
                    if type(v) is Node:
                        self.final.setdefault(v.id, []).append(e)
        for e in self.final.get(L.id, []):
            mm = {}
            if any(type(q) is Node and q.id in self.known for q in
                   [rebuild(self.ref["properties"][k], X.var("D"), e, mm) for k in STAB]):
                L = e
                break
        D = X.var("D")
        return {k: rebuild(self.ref["properties"][k], D, L, memo) for k in STAB}


def codecond(rc, v):
    """condition under which an integer ite tree has value v"""
    memo = {}

    def go(n):
        n = X._unc(n) if type(n) is Node else n
        if type(n) is not Node:
            return 1 if n == v else 0
        if n.id in memo:
            return memo[n.id]
        if n.op == "iconst":
            r = 1 if n.data == v else 0
        elif n.op == "ite":
            r = X.bite(n.args[0], go(n.args[1]), go(n.args[2]))
        else:
            raise Inconclusive("the verdict is not a choice of constants")
        memo[n.id] = r
        return r
    return go(rc)


def cutnode(e):
    """the value whose exponential is the state's density (sign stripped), or the density itself"""
    if e.op == "exp":
        a = e.args[0]
        return a.args[0] if a.op == "fneg" else a
    return e


def stops(run):
    s = set()
    for e, p, sl, _ in run.states:
        s |= {e.id, p.id, cutnode(e).id}
        if type(sl) is Node:
            s.add(sl.id)
    return s


def touched(run, L):
    """indices of the states whose terms occur in L"""
    ids = {}
    for k, (e, p, s, _) in enumerate(run.states):
        for n in (e, p, s, cutnode(e)):
            if type(n) is Node and n.op != "const":
                ids.setdefault(n.id, []).append(k)
    out, seen, st = [], set(), [L]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.id in ids:
            out += [k for k in ids[n.id] if k not in out]
            continue
        if len(seen) > 3000:
            return out
        st.extend(n.args)
    return out


def translator(run, k, L=None, stab=None):
    """terms of state k: free reals V (its logarithm or volume term), E, P, S"""
    st = stops(run)
    cut, side = {}, []
    T = {}
    if k is not None:
        e, p, s, _ = run.states[k]
        c = cutnode(e)
        V, nv = z3.Real("V"), z3.Bool("nanV")
        if c is e:
            E, ne = V, nv
        else:
            E, ne = z3.Real("E"), nv
            side.append(E > 0)
        P, S = (z3.Real("P"), z3.Bool("nanP")), (z3.Real("S"), z3.Bool("nanS"))
        cut.update({c.id: (V, nv), e.id: (E, ne), p.id: P})
        if type(s) is Node:
            cut[s.id] = S
        T.update(V=(V, nv), E=(E, ne), P=P, S=S)
    if stab:          # a checked quantity is a free real; where the search knows it by its choices, each of these
        for q, n in stab.items():
            for l, _ in [(n, 1)] if type(n) is Node and n.id in run.known else leaves(n):
                if type(l) is Node and l.id not in cut:
                    cut[l.id] = (z3.Real("q%d" % l.id), z3.Bool("nan_q%d" % l.id))
    for n in cut:
        st.discard(n)
    F = RN(cut, st, {"ap", "at", "flag"})
    F.side += side
    for q, n in (stab or {}).items():
        if type(n) is Node:
            T["q_" + q] = F.get(n)
    return F, T


def corr(run, F, T, k):
    """|(ln P - ln p) P| and E S of state k"""
    e, p, s, _ = run.states[k]
    lp = F.get(X.fop("log", p))
    l0 = F.get(X.fop("log", X.var("ap")))
    num = (lp[0] - l0[0]) * T["P"][0]
    return z3.If(num < 0, -num, num), T["E"][0] * T["S"][0], [z3.Not(lp[1]), z3.Not(l0[1])]


def near(F, T, run, k, L):
    """(value term of L, facts linking it to E)"""
    l = F.get(L) if type(L) is Node else F.f(L)
    facts = []
    e = run.states[k][0]
    if type(L) is Node and L.op == "exp" and e.op == "exp" and L is not e:
        a, u = F.get(L.args[0]), F.get(e.args[0])
        dlt = a[0] - u[0]
        df = l[0] - T["E"][0]
        # |exp(delta) - 1| <= 1.000001 |delta| for |delta| <= 1e-6
        facts.append(z3.Implies(z3.And(dlt <= Q(1.999e-7), -dlt <= Q(1.999e-7), z3.Not(a[1]), z3.Not(u[1])),
                                z3.And(df <= Q(1.9999e-7) * T["E"][0], -df <= Q(1.9999e-7) * T["E"][0])))
        facts += [z3.Implies(z3.Not(a[1]), z3.Not(l[1]))]
    return l, facts


def Q(x):
    return z3.RealVal(str(Fraction(x)))


def claim(run, F, T, k, L):
    l, facts = near(F, T, run, k, L)
    num, den, ok = corr(run, F, T, k)
    df = l[0] - T["E"][0]
    E = T["E"][0]
    c = z3.And(T["P"][0] > 0, T["S"][0] > 0, z3.Not(T["P"][1]), z3.Not(T["S"][1]), z3.Not(T["E"][1]), z3.Not(l[1]), *ok,
               num < Q(1.000001e-7) * den, df <= Q(2e-7) * E, -df <= Q(2e-7) * E)
    return c, facts


def solve(ck, cons, F, tries=((3, 0), (3, 1), (5, 2), (20, 0), (60, 1))):
    """'sat'/'unsat'; several orders of the same assertions (nonlinear queries are sensitive to it)"""
    for t, o in tries:
        s = z3.Solver()
        if o == 1:
            s.set("random_seed", 7)
        a = cons + F.side
        for c in (a if o == 0 else (F.side + cons if o == 1 else a[::-1])):
            s.add(c)
        try:
            return ck.sat(s, t)
        except Inconclusive as e:
            why = e
    raise Inconclusive(str(why))


def atoms_of(es):
    """Boolean subterms without Boolean structure"""
    out, seen, st = {}, set(), list(es)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_true(e) or z3.is_false(e):
            continue
        k = e.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_XOR, z3.Z3_OP_IMPLIES) or \
                k in (z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bool(e.arg(e.num_args() - 1)):
            st += e.children()
        else:
            out[e.get_id()] = e
    return list(out.values())


def implied(ck, path):
    """literals that follow from the propositional structure of the path conditions"""
    at = atoms_of(path)
    sub, lits = [], []
    for i, e in enumerate(at):
        sub.append((e, e if z3.is_const(e) else z3.Bool("@%d" % i)))
    s = z3.Solver()
    for p in path:
        s.add(z3.substitute(p, *[q for q in sub if q[0] is not q[1]]) if sub else p)
    for e, b in sub:
        if z3.is_const(e) and str(e)[0] == "a" and str(e)[1:].isdigit():
            continue                      # a condition about something else
        for v in (True, False):
            if ck.sat(s, 20, z3.Not(b) if v else b) == "unsat":
                lits.append(e if v else z3.Not(e))
                break
    return lits


def conjuncts(e):
    return [q for c in e.children() for q in conjuncts(c)] if z3.is_and(e) else [e]


def prove(ck, F, path, facts, goal):
    """path, facts and the side conditions entail the goal: 'unsat' of the negation, one conjunct after the other, first
    from the literals the path implies, then from the whole path"""
    path, facts = list(path), list(facts)
    try:
        return solve(ck, path + facts + [z3.Not(goal)], F, ((3, 0),))
    except Inconclusive:
        pass
    try:
        lits = implied(ck, path)
    except Inconclusive:
        lits = []
    known, left = [], conjuncts(goal)
    for rnd in range(3):                  # easy ones first, they help with the others
        rest = []
        for g in left:
            s = z3.Solver()
            s.add(*lits, *facts, *F.side, *known, z3.Not(g))
            try:
                ok = ck.sat(s, (1, 4, 10)[rnd]) == "unsat"
            except Inconclusive:
                ok = False
            if ok:
                known.append(g)
            else:
                rest.append(g)
        if not rest:
            return "unsat"
        left = rest
        try:                              # what is known now decides further conditions of the path
            lits = implied(ck, path + [g for g in known if not atoms_of([g]) or z3.is_const(atoms_of([g])[0])])
        except Inconclusive:
            pass
    for g in left:
        if solve(ck, path + facts + known + [z3.Not(g)], F) != "unsat":
            return "sat"
        known.append(g)
    return "unsat"


def job(ck, item):
    """one exit (leaf of the final density): list of claims that could not be proved"""
    run, m = CTX["run"], CTX["m"]
    kind, idx = item
    bad = []

    def query(what, F, path, facts, goal):
        ck.obl += 1
        t0 = time.time()
        r = prove(ck, F, path, facts, goal)
        if time.time() - t0 > 3 and DEBUG:
            print("slow", item, what, time.time() - t0, r, flush=True)
        if r == "unsat":
            ck.disch += 1
            return True
        bad.append(what)
        return False

    if kind == "leaf":
        L, sel = CTX["leaves"][idx]
        if sel == 0:
            return bad
        ks = touched(run, L) if type(L) is Node else []
        ok, fail, low = (codecond(run.rc, v) for v in CTX["codes"])
        # success
        F, T = translator(run, None)
        try:
            possible = solve(ck, [F.b(sel), F.b(ok)], F, ((2, 0), (2, 1))) == "sat"
        except Inconclusive:
            possible = True
        if possible:
            if not ks:
                bad.append("success with the density of %s" % X.show(L, 3)[:80])
                ck.obl += 1
            done = False
            for k in ks:
                F, T = translator(run, k)
                base = [F.b(sel), F.b(ok)]
                c, facts = claim(run, F, T, k, L)
                if query("success at evaluated state %d without a converged state there" % (k + 1), F, base, facts, c):
                    done = True
                    del bad[:]
                    # reachable: the exit can be taken
                    try:
                        if not ck.witnesses and solve(ck, base + facts + [c], F, ((3, 0), (3, 1), (3, 2))) == "sat":
                            ck.witnesses += 1
                    except Inconclusive:
                        pass
                    break
            if m == "g" and type(L) is Node and done:
                st = run.stab(L)
                F, T = translator(run, ks[0], L, st)
                fl = z3.BitVec("flag", 32)
                for q in STAB:
                    if "q_" + q not in T:
                        bad.append("no term for %s" % q)
                        continue
                    query("success with the stability check requested although %s is not positive" % q, F,
                          [F.b(sel), F.b(ok)], [fl > 0, z3.Not(T["q_" + q][1])], T["q_" + q][0] > 0)
        # failure
        F, T = translator(run, None)
        p, t = F.f(X.var("ap")), F.f(X.var("at"))
        l = F.f(L)
        pre = [z3.Not(p[1]), z3.Not(t[1]), t[0] > 0]
        diff = l[0] * Q(GAS[m]) * t[0] - p[0]
        ab = z3.If(p[0] < 0, -p[0], p[0])
        query("failure with a density other than that of the ideal gas (%s)" % X.show(L, 3)[:60], F,
              [F.b(sel), F.b(fail)], pre, z3.And(diff <= Q(1e-9) * ab, -diff <= Q(1e-9) * ab, z3.Not(l[1])))
        if m == "d":
            query("pressure too low with density %s" % X.show(L, 3)[:60], F,
                  [F.b(sel), F.b(low)], [], z3.And(p[0] < Q(1.000001e-15), -p[0] < Q(1.000001e-15), z3.Not(p[1]), l[0] == 0, z3.Not(l[1])))
            query("no report of a pressure that is too low", F,
                  [F.b(sel), z3.Not(F.b(low))], [z3.Not(p[1]), p[0] < Q(0.999999e-15), -p[0] < Q(0.999999e-15)], z3.BoolVal(False))
        else:
            query("a verdict that GERG does not have", F, [F.b(sel), F.b(low)], [], z3.BoolVal(False))
        query("an unknown verdict", F, [F.b(sel), z3.Not(F.b(ok)), z3.Not(F.b(fail)), z3.Not(F.b(low))], [], z3.BoolVal(False))
    else:
        # GERG: a converged state is reported as success unless the requested check fails
        k = idx
        e, p, s, pc = run.states[k]
        fail = codecond(run.rc, CTX["codes"][1])
        Ls = [L for L, sel in CTX["leaves"] if type(L) is Node and L is not e and k in touched(run, L)]
        if len(Ls) != 1:
            raise Inconclusive("%d final densities belong to evaluated state %d" % (len(Ls), k + 1))
        st = run.stab(Ls[0])
        F, T = translator(run, k, Ls[0], st)
        num, den, okc = corr(run, F, T, k)
        conv = [T["P"][0] > Q(1.001e-15), T["S"][0] > Q(1.001e-15), z3.Not(T["P"][1]), z3.Not(T["S"][1]), z3.Not(T["E"][1]), *okc,
                num < Q(0.999999e-7) * den]
        good = z3.And(*[z3.And(z3.Not(T["q_" + q][1]), T["q_" + q][0] > 0) for q in STAB if "q_" + q in T])
        fl = z3.BitVec("flag", 32)
        query("failure although evaluated state %d converged" % (k + 1), F, [F.b(pc), F.b(fail)], conv + [z3.Or(fl <= 0, good)],
              z3.BoolVal(False))
    return bad


CTX = {}
DEBUG = False


def density(ck, m):
    S = Sess(native=("3", "0"))
    S.image(m)
    try:
        run = Run(ck, S, m)
    except EX.Stop as e:
        # the exploration of the search does not end: does the search itself?
        h = hang(S, ck, m)
        if h:
            ck.violation("%s:density-hang" % m, h[0], h[1])
            return
        raise Inconclusive("%s.density(): %s" % (DEC[m], e))
    ck.functions |= S.encoded
    CTX.clear()
    CTX.update(run=run, m=m, S=S, leaves=lifted(run.d, stops(run)))
    # verdict codes by name, from the harness: 0 success, then DensityError in order
    CTX["codes"] = (0, CODES["IterationFail"], CODES["PressureTooLow"])
    n = run.evals
    limit = {"d": 20, "g": 51}[m]
    ck.obl += 1
    probs = []
    if n <= 2 * limit:
        ck.disch += 1
    else:
        probs.append("%d state evaluations" % n)
    items = [("leaf", i) for i in range(len(CTX["leaves"]))]
    if m == "g":
        items += [("conv", k) for k in range(len(run.states))]
    if not run.states:
        probs.append("no evaluated state of the search matches the model's own pressure")
    res = pmap(ck, job, items) if not probs else []
    probs += list(getattr(ck, "problems", []))
    bad = probs + [w for r in res if r for w in r]
    ck.bounds += ["every mole fraction in [0, 2] (not all zero), every temperature in [1e-3, 1e6], every pressure, initial density and mode flag",
                  "the complete search: %d state evaluations at most, %d exits" % (n, len(CTX["leaves"]))]
    ck.assumptions += ["the few operations of the Newton step are exact real arithmetic (claims carry a 1e-6 relative slack for their rounding)",
                       "no intermediate value overflows to infinity in a converging step",
                       "|exp(x) - 1| <= 1.000001 |x| for |x| <= 1e-6",
                       "pressure and slope at an evaluated state are those of the public calculations by expression identity; C07/C08 relate them"]
    ck.extra["evaluated_states"] = len(run.states)
    ck.extra["exits"] = len(CTX["leaves"])
    ck.samples += ["exit %d: %s" % (i, X.show(L, 4)[:120] if type(L) is Node else L) for i, (L, s) in list(enumerate(CTX["leaves"]))[:6]]
    rng = random.Random(ck.seed)
    h = hang(S, ck, m) if bad else None
    if h:
        ck.violation("%s:density-hang" % m, h[0], h[1])
        return
    w = search(S.N, m, rng, 100 if bad else 5)
    if w and w[0]:
        ck.violation("%s:density" % m, w[0], w[1])
        return
    if bad:
        raise Inconclusive("%s.density(): %s; %d searched states gave no counterexample" % (DEC[m], "; ".join(bad[:3]), w[2]))
    ck.validated += w[2]


CODES = {"IterationFail": 1, "PressureTooLow": 2}


# ------------------------------------------------------------------------------------------------ native side
HANG = """
import random, signal, time, math
from engine.build import Native
from checks import hist
N = Native(%r)
m = %r
rng = random.Random(%d)
end = time.time() + 40
while time.time() < end:
    i = N.new(m)
    xs = hist.rcomp(rng)
    t = rng.choice((rng.uniform(20, 700), rng.uniform(150, 400), 10 ** rng.uniform(1, 4)))
    p = rng.choice((10 ** rng.uniform(-3, 6), 10 ** rng.uniform(-3, 6), rng.choice((math.nan, math.inf, -1.0, 0.0, 1e300))))
    d0 = rng.choice((0.0, 0.0, -rng.uniform(0.01, 30), -10 ** rng.uniform(-6, 3), math.nan))
    fl = rng.choice((0, 1, 2))
    i.setx(xs)
    i.t, i.p, i.d = t, p, d0
    print("last", repr(dict(model=m, x=xs, T=t, p=p, d=d0, flag=fl)), flush=True)
    signal.alarm(10)
    i.density(fl)
    signal.alarm(0)
print("alive")
"""


def hang(S, ck, m):
    """a density calculation that does not return (or ends the process), run in a process of its own"""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r)\n%s" % (here, HANG % (S.B.native("0").path, m, ck.seed))],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    out = p.stdout.rstrip().splitlines()
    if not out or out[-1] == "alive" or p.returncode >= 0:
        return None
    nan, inf = math.nan, math.inf
    st = eval(out[-1][5:])
    return "%s.density(%d) at T = %r, p = %r, initial d = %r, x = %s %s" % (
        DEC[m], st["flag"], st["T"], st["p"], st["d"], {COMP[k]: v for k, v in enumerate(st["x"]) if v},
        "does not return within 10 s" if p.returncode == -14 else "ends the process with signal %d" % -p.returncode), st


def judge(N, m, xs, t, p, d0, flag):
    """text when the outcome of a density calculation contradicts the property"""
    i = N.new(m)
    i.setx(xs)
    i.t, i.p, i.d = t, p, d0
    rc = i.density(flag)
    d = i.d
    where = "%s.density(%d) at T = %r, p = %r, initial d = %r, x = %s" % (DEC[m], flag, t, p, d0, {COMP[k]: v for k, v in enumerate(xs) if v})
    if m == "d" and (abs(p) < 1e-15) != (rc == CODES["PressureTooLow"]):
        return where + " returns verdict %d" % rc
    if rc == CODES["PressureTooLow"] and m == "d":
        return None if d == 0 else where + ": pressure too low, density %r" % d
    if rc == CODES["IterationFail"]:
        ig = p / GAS[m] / t
        if d == d and ig == ig and abs(d - ig) > 1e-9 * abs(ig):
            return where + " fails and leaves density %r, ideal gas has %r" % (d, ig)
        return None
    if rc != 0:
        return where + " returns verdict %d" % rc

    def state(e):
        j = N.new(m)
        j.setx(xs)
        j.t, j.d = t, e
        P = j.pressure()
        q = N.new(m)
        q.setx(xs)
        q.t, q.d = t, e
        q.properties()
        return P, q.dp_dd, q
    ok = False
    for r in (0.0, 0.5e-7, -0.5e-7, 1e-7, -1e-7, 1.5e-7, -1.5e-7, 2e-7, -2e-7):
        e = d * (1 + r)
        P, s, _ = state(e)
        if P > 0 and s > 0 and p > 0 and e > 0 and abs((math.log(P) - math.log(p)) * P) < 1.2e-7 * e * s:
            ok = True
            break
    if not ok:
        P, s, _ = state(d)
        return where + " succeeds with density %r, where pressure is %r and its slope %r" % (d, P, s)
    if m == "g" and flag > 0:
        _, _, q = state(d)
        vals = dict(p=q.pressure(), dp_dd=q.dp_dd, d2p_dtd=q.d2p_dtd, cv=q.cv, cp=q.cp, w=q.w)
        neg = [k for k, v in vals.items() if v <= 0]
        if neg:
            return where + " succeeds although %s = %r" % (neg[0], vals[neg[0]])
    return None


def judge_flag(N, m, xs, t, p, d0, flag):
    """a requested stability check only turns success into failure when the state fails it"""
    i, j = N.new(m), N.new(m)
    for q in (i, j):
        q.setx(xs)
        q.t, q.p, q.d = t, p, d0
    r1, r0 = i.density(flag), j.density(0)
    if flag == 1 and r0 == 0 and r1 != 0:
        q = N.new(m)
        q.setx(xs)
        q.t, q.d = t, j.d
        pp = q.properties()
        vals = dict(p=pp, dp_dd=q.dp_dd, d2p_dtd=q.d2p_dtd, cv=q.cv, cp=q.cp, w=q.w)
        if all(v > 0 for v in vals.values()):
            return "%s.density(1) at T = %r, p = %r, d = %r, x = %s fails although density(0) converges to %r, which passes the check" % (
                DEC[m], t, p, d0, {COMP[k]: v for k, v in enumerate(xs) if v}, j.d)
    return None


def critical(N, m, xs, rng):
    """states of small slope: temperatures at which the least slope over density is nearly zero"""
    def least(t):
        best = None
        for k in range(1, 60):
            d = 0.25 * k * 1.1
            i = N.new(m)
            i.setx(xs)
            i.t, i.d = t, d
            i.properties()
            if i.dp_dd == i.dp_dd and (best is None or i.dp_dd < best[0]):
                best = (i.dp_dd, d)
        return best
    lo, hi = 20.0, 1500.0
    for _ in range(30):
        mid = (lo + hi) / 2
        b = least(mid)
        if b is None or b[0] < 0:
            lo = mid
        else:
            hi = mid
    b = least(hi)
    return (hi, b[1]) if b else None


def search(N, m, rng, seconds):
    end = time.time() + seconds
    n = 0
    crit = []
    w = None
    for p in (0.0, 1e-16, -1e-16, -1.0, math.nan, math.inf, 1e-14, 2e-15, 5e-324):
        xs = [1.0 / 21] * 21
        for fl in ((0, 1, 2) if m == "g" else (0,)):
            for d0 in (0.0, -3.0):
                n += 1
                w = judge(N, m, xs, 300.0, p, d0, fl)
                if w:
                    return w, dict(model=m, x=xs, T=300.0, p=p, d=d0, flag=fl), n
    while time.time() < end:
        n += 1
        if len(crit) < 12 and n % 40 == 1:
            xs = hist.rcomp(rng)
            c = critical(N, m, xs, rng)
            if c:
                crit.append((xs,) + c)
        r = rng.random()
        if crit and r < 0.5:
            xs, tc, dc = rng.choice(crit)
            t = tc * (1 + rng.choice((-1, 1, 1, 1)) * 10 ** rng.uniform(-9, -1.5))
            d = dc * (1 + rng.uniform(-0.1, 0.1))
            i = N.new(m)
            i.setx(xs)
            i.t, i.d = t, d
            p = i.pressure()
        else:
            xs = hist.rcomp(rng)
            t = rng.choice((rng.uniform(60, 700), rng.uniform(150, 400), 10 ** rng.uniform(1, 4)))
            p = 10 ** rng.uniform(-3, 6)
        d0 = rng.choice((0.0, 0.0, -rng.uniform(0.01, 30), -10 ** rng.uniform(-6, 3)))
        fl = rng.choice((0, 0, 1, 2, -1)) if m == "g" else 0
        w = judge(N, m, xs, t, p, d0, fl)
        if not w and m == "g":
            w = judge_flag(N, m, xs, t, p, d0, 1)
        if w:
            return w, dict(model=m, x=xs, T=t, p=p, d=d0, flag=fl), n
    return None, None, n


def c11(ck):
    density(ck, "d")


def c12(ck):
    density(ck, "g")
