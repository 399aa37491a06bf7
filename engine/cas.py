"""Exact-real normal form of expression DAGs.

An expression over real variables is rewritten to a finite sum of monomials with numeric coefficients, where a monomial is
a product of real powers of atoms.  Atoms: variables, exp(monomial) (so exp of a sum is a product), log of an atom, and
polynomials that are divided by, raised to a real power, or too large to multiply out.  Every coefficient carries the
magnitude of what was added up to form it, so that cancelled sums are recognised as zero up to a relative 1e-12.

Values that are equal as real functions for all positive values of the variables have equal normal forms after the
progressive expansion done in zero(); zero() hands the remaining linear question to an SMT solver.
"""
import math, time
from . import expr as X
from .expr import Node

PRUNE = 1e-12
ITOL = 1e-9          # relative tolerance under which two coefficients or exponents are the same number


class Unsupported(Exception):
    pass


class DivZero(Unsupported):
    """a quotient whose denominator is exactly zero: the value is not finite"""


class TooBig(Exception):
    pass


class CAS:
    def __init__(self, tdvars=("t", "d")):
        self.kind, self.body, self.td, self.names = [], [], [], {}
        self.tdvars = set(tdvars)
        self.mt = [()]                # mono id -> ((atom, exponent), ...)
        self.mid = {(): 0}
        self.mtd = [False]
        self.mmc = {}
        self.mpc = {}
        self.ex = {}
        self.exs = {}
        self.expatom, self.logatom, self.polyidx = {}, {}, {}
        self.dcache = {}
        self.fallback_expansions = 0
        self.assumed = []
        self.ops = 0

    # ------------------------------------------------------------ atoms, exponents, monomials
    def _atom(self, kind, body, td):
        self.kind.append(kind)
        self.body.append(body)
        self.td.append(td)
        return len(self.kind) - 1

    def var(self, name):
        if name not in self.names:
            self.names[name] = self._atom("var", name, name in self.tdvars)
        return {self.mono(((self.names[name], 1.0),)): 1 + 1j}

    def cx(self, e):
        r = self.ex.get(e)
        if r is not None:
            return r
        if abs(e) < 1e-10:
            r = 0.0
        else:
            q = round(e)
            if abs(e - q) < 1e-10:
                e2 = float(q)
            else:
                e2 = e
            h = 0.5 * 10.0 ** (int(("%.9e" % e2).split("e")[1]) - 9)
            for f in (e2, e2 + h, e2 - h):
                r = self.exs.get("%.9e" % f)
                if r is not None:
                    break
            else:
                r = e2
                self.exs["%.9e" % e2] = e2
        self.ex[e] = r
        return r

    def mono(self, t):
        i = self.mid.get(t)
        if i is None:
            i = self.mid[t] = len(self.mt)
            self.mt.append(t)
            self.mtd.append(any(self.td[a] for a, _ in t))
        return i

    def mm(self, i, j):
        if i == 0:
            return j
        if j == 0:
            return i
        if i > j:
            i, j = j, i
        k = (i, j)
        r = self.mmc.get(k)
        if r is None:
            d = dict(self.mt[i])
            for a, e in self.mt[j]:
                if a in d:
                    e = self.cx(d[a] + e)
                    if e == 0.0:
                        del d[a]
                        continue
                d[a] = e
            r = self.mmc[k] = self.mono(tuple(sorted(d.items())))
        return r

    def mp(self, i, c):
        k = (i, c)
        r = self.mpc.get(k)
        if r is None:
            t = [(a, self.cx(e * c)) for a, e in self.mt[i]]
            r = self.mpc[k] = self.mono(tuple((a, e) for a, e in t if e != 0.0))
        return r

    def order(self, i):
        """translation-invariant total order on monomials: sort key relative to others is by exponent vector"""
        return self.mt[i]

    def lead(self, P):
        """monomial with the largest exponent on the first atom where monomials differ"""
        ms = list(P)
        exps = [dict(self.mt[m]) for m in ms]
        atoms = sorted({a for e in exps for a in e})
        idx = range(len(ms))
        for a in atoms:
            vals = [exps[i].get(a, 0.0) for i in idx]
            mx = max(vals)
            idx = [i for i, v in zip(idx, vals) if v == mx]
            if len(idx) == 1:
                break
        return ms[idx[0]]

    # ------------------------------------------------------------ polynomials: {mono: complex(value, magnitude)}
    def const(self, c):
        if c != c or math.isinf(c):
            raise Unsupported("constant %r" % c)
        return {0: complex(c, abs(c))} if c else {}

    def add_into(self, A, B, s=1.0):
        if not s:
            return A
        for m, c in B.items():
            if s != 1.0:
                c = complex(c.real * s, c.imag * abs(s))
            o = A.get(m)
            if o is None:
                A[m] = c
            else:
                o += c
                if abs(o.real) <= PRUNE * o.imag:
                    del A[m]
                else:
                    A[m] = o
        return A

    def add(self, A, B, s=1.0):
        if len(A) < len(B) and s == 1.0:
            A, B = B, A
        return self.add_into(dict(A), B, s)

    def scale(self, A, c):
        return {m: complex(v.real * c, v.imag * abs(c)) for m, v in A.items()} if c else {}

    def tdep(self, A):
        mtd = self.mtd
        return any(mtd[m] for m in A)

    def mulmono(self, A, m, c):
        mm, re, im = self.mm, c.real, c.imag
        R = {}
        for k, v in A.items():
            R[mm(k, m)] = complex(v.real * re, v.imag * im)
        return R

    def expand(self, A, B, limit=None):
        if limit and len(A) * len(B) > limit:
            raise TooBig()
        R = {}
        mm = self.mm
        for m, c in A.items():
            re, im = c.real, c.imag
            for k, v in B.items():
                q = mm(k, m)
                w = complex(v.real * re, v.imag * im)
                o = R.get(q)
                R[q] = w if o is None else o + w
        return {m: c for m, c in R.items() if abs(c.real) > PRUNE * c.imag}

    def atomise(self, A):
        """nonmonomial A -> single-term polynomial lead * atom"""
        A = self.reduce(A)
        if len(A) <= 1:
            return A
        l = self.lead(A)
        lc = A[l]
        s = abs(lc.real)
        inv = self.mp(l, -1.0)
        body = {}
        for m, c in A.items():
            body[self.mm(m, inv)] = complex(c.real / s, c.imag / s)
        key = tuple(sorted(body))
        cands = self.polyidx.setdefault(key, [])
        for a in cands:
            b = self.body[a]
            for sg in (1.0, -1.0):
                if all(abs(c.real - sg * b[m].real) <= ITOL * (c.imag + b[m].imag) for m, c in body.items()):
                    return {self.mm(l, self.mono(((a, 1.0),))): complex(sg * s, s)}
        a = self._atom("poly", body, self.tdep(body))
        cands.append(a)
        return {self.mm(l, self.mono(((a, 1.0),))): complex(s, s)}

    def mul(self, A, B):
        if not A or not B:
            return {}
        self.ops += 1
        if len(A) > len(B):
            A, B = B, A
        if len(A) == 1:
            (m, c), = A.items()
            if len(B) > 1 and self.mtd[m] and not self.tdep(B):
                B = self.atomise(B)
            return self.mulmono(B, m, c)
        ta, tb = self.tdep(A), self.tdep(B)
        n = len(A) * len(B)
        if ta == tb:
            if n <= (400 if ta else 20000):
                return self.expand(A, B)
            A, B = self.atomise(A), self.atomise(B)
        elif ta:
            B = self.atomise(B)
        else:
            A = self.atomise(A)
        return self.expand(A, B)

    def power(self, A, c):
        c = self.cx(float(c))
        if c == 0.0:
            return self.const(1.0)
        if not A:
            if c > 0:
                return {}
            raise DivZero("division by zero")
        if c == 1.0:
            return A
        if len(A) > 1:
            if c == int(c) and 1 < c <= 4 and len(A) ** int(c) <= (400 if self.tdep(A) else 60000):
                R = A
                for _ in range(int(c) - 1):
                    R = self.expand(R, A)
                return R
            A = self.atomise(A)
            if len(A) != 1:
                return self.power(A, c)
        (m, v), = A.items()
        s = v.real
        if s < 0 and c != int(c):
            raise Unsupported("fractional power of a negative value")
        try:
            q = s ** int(c) if c == int(c) else s ** c
        except OverflowError:
            raise Unsupported("overflow in a constant")
        return {self.mp(m, c): complex(q, abs(q))}

    def log(self, A):
        if not A:
            raise Unsupported("log of zero")
        if len(A) > 1:
            A = self.atomise(A)
        (m, v), = A.items()
        if v.real <= 0:
            raise Unsupported("log of a negative value")
        R = self.const(math.log(v.real))
        for a, e in self.mt[m]:
            if self.kind[a] == "exp":
                R = self.add(R, {self.body[a]: complex(e, abs(e))})
                continue
            l = self.logatom.get(a)
            if l is None:
                l = self.logatom[a] = self._atom("log", a, self.td[a])
            self.add_into(R, {self.mono(((l, 1.0),)): complex(e, abs(e))})
        return R

    def exp(self, A):
        t = {}
        k = 1.0
        for m, c in A.items():
            if m == 0:
                try:
                    k *= math.exp(c.real)
                except OverflowError:
                    raise Unsupported("overflow in a constant")
                continue
            mt = self.mt[m]
            if len(mt) == 1 and mt[0][1] == 1.0 and self.kind[mt[0][0]] == "log":
                a = self.body[mt[0][0]]
            else:
                a = self.expatom.get(m)
                if a is None:
                    a = self.expatom[m] = self._atom("exp", m, self.mtd[m])
            t[a] = self.cx(t.get(a, 0.0) + c.real)
        return {self.mono(tuple(sorted((a, e) for a, e in t.items() if e != 0.0))): complex(k, k)}

    # ------------------------------------------------------------ differentiation
    def datom(self, a, v):
        k = (a, v)
        r = self.dcache.get(k)
        if r is None:
            kd, b = self.kind[a], self.body[a]
            if kd == "var":
                r = self.const(1.0) if b == v else {}
            elif kd == "exp":
                r = self.mulmono(self.diff({b: 1 + 1j}, v), self.mono(((a, 1.0),)), 1 + 1j)
            elif kd == "log":
                r = self.mulmono(self.datom(b, v), self.mono(((b, -1.0),)), 1 + 1j)
            else:
                r = self.diff(b, v)
            self.dcache[k] = r
        return r

    def diff(self, A, v):
        R = {}
        for m, c in A.items():
            if not self.mtd[m]:
                continue
            for a, e in self.mt[m]:
                if not self.td[a]:
                    continue
                D = self.datom(a, v)
                if not D:
                    continue
                rest = self.mm(m, self.mono(((a, -1.0),)))
                self.add_into(R, self.mulmono(D, rest, complex(c.real * e, c.imag * abs(e))))
        return R

    # ------------------------------------------------------------ canonical partial fractions for 1 + s*M denominators
    def binomial(self, a):
        """(s, M, pivot atom, pivot exponent) if atom a is sgn*1 + s*M"""
        if self.kind[a] != "poly":
            return None
        b = self.body[a]
        if len(b) != 2 or 0 not in b:
            return None
        (M, c), = [(m, c) for m, c in b.items() if m]
        pa, pe = self.mt[M][0]
        return b[0].real, c.real, M, pa, pe

    def reduce(self, A):
        for _ in range(200):
            todo = []
            for m in A:
                for a, e in self.mt[m]:
                    if e < 0 and e == int(e) and self.td[a] and self.kind[a] == "poly":
                        bi = self.binomial(a)
                        if bi:
                            x = dict(self.mt[m]).get(bi[3], 0.0) / bi[4]
                            k = math.floor(x + 1e-9)
                            if k != 0:
                                todo.append((m, a, bi, k))
                                break
            if not todo:
                return A
            A = dict(A)
            for m, a, (u, s, M, pa, pe), k in todo:
                c = A.pop(m, None)
                if c is None:
                    continue
                P = self.mono(((a, 1.0),))
                if k > 0:
                    # M = (P - u)/s
                    r = self.mm(m, self.mp(M, -1.0))
                    self.add_into(A, {self.mm(r, P): complex(c.real / s, c.imag / abs(s))})
                    self.add_into(A, {r: complex(-u * c.real / s, c.imag / abs(s))})
                else:
                    # 1 = (P - s M)/u, u = +-1
                    self.add_into(A, {self.mm(m, P): complex(c.real / u, c.imag)})
                    self.add_into(A, {self.mm(m, M): complex(-s * c.real / u, c.imag * abs(s))})
            # positive powers of binomial atoms reappear as ordinary sums
            B = {}
            for m, c in A.items():
                t = self.mt[m]
                hit = None
                for a, e in t:
                    if e > 0 and e == int(e) and e <= 6 and self.td[a] and self.kind[a] == "poly" and self.binomial(a):
                        hit = (a, e)
                        break
                if hit:
                    R = {self.mm(m, self.mono(((hit[0], -hit[1]),))): c}
                    for _ in range(int(hit[1])):
                        R = self.expand(R, self.body[hit[0]])
                    self.add_into(B, R)
                else:
                    self.add_into(B, {m: c})
            A = B
        raise TooBig()

    # ------------------------------------------------------------ comparison
    def residue(self, A, tol):
        return {m: c for m, c in A.items() if abs(c.real) > tol * c.imag}

    def normal(self, A, tol=1e-9, limit=60000, seconds=20):
        """progressively expanded form of A whose terms all pass |value| <= tol*magnitude if A is identically zero.
        Returns (terms, ok).  Terms keep value and magnitude."""
        A = A0 = self.reduce(A)
        seen, t0 = 0, time.time()
        while True:
            bad = self.residue(A, tol)
            if not bad:
                return A, True
            # pick the youngest polynomial atom occurring in a bad term and get rid of it everywhere it matters
            cand = sorted({a for m in bad for a, e in self.mt[m] if self.kind[a] == "poly"}, reverse=True)
            done = False
            for a in cand:
                es = {dict(self.mt[m]).get(a, 0.0) for m in A}
                frac = {}
                for e in es:
                    frac.setdefault(round(e - math.floor(e + 1e-9), 7), []).append(e)
                # clear: within a class of equal fractional part multiply by the lowest power, expand the rest
                if all(len(v) == 1 and (f != 0 or v[0] < 0) for f, v in frac.items()) and \
                        not any(e > 0 and e == int(e) for e in es):
                    continue
                B = {}
                neg = min([e for e in es if e == int(e)] + [0.0])
                try:
                    for m, c in A.items():
                        e = dict(self.mt[m]).get(a, 0.0)
                        f = round(e - math.floor(e + 1e-9), 7)
                        low = min(frac[f]) if f else min(neg, 0.0)
                        k = int(round(e - low))
                        if k == 0:
                            self.add_into(B, {m: c})
                            continue
                        R = {self.mm(m, self.mono(((a, -float(k)),))): c}
                        for _ in range(k):
                            R = self.expand(R, self.body[a], limit)
                        self.add_into(B, R)
                        if len(B) > limit:
                            raise TooBig()
                except TooBig:
                    continue
                self.fallback_expansions += 1
                A = self.reduce(B)
                done = True
                break
            seen += 1
            if not done or seen > 60 or time.time() - t0 > seconds:
                return A0, False

    # ------------------------------------------------------------ evaluation (mpmath or float)
    def value(self, A, env, mp=math):
        cache = env.setdefault("#cache", {})
        r = 0
        for m, c in A.items():
            r += c.real * self.mval(m, env, mp, cache)
        return r

    def magnitude(self, A, env, mp=math):
        cache = env.setdefault("#cache", {})
        return sum(c.imag * abs(self.mval(m, env, mp, cache)) for m, c in A.items())

    def mval(self, m, env, mp, cache):
        v = cache.get(m)
        if v is None:
            v = 1
            for a, e in self.mt[m]:
                v = v * self.aval(a, env, mp, cache) ** (int(e) if e == int(e) else e)
            cache[m] = v
        return v

    def aval(self, a, env, mp, cache):
        k = -1 - a
        v = cache.get(k)
        if v is None:
            kd, b = self.kind[a], self.body[a]
            if kd == "var":
                v = env[b]
            elif kd == "exp":
                v = mp.exp(self.mval(b, env, mp, cache))
            elif kd == "log":
                v = mp.log(self.aval(b, env, mp, cache))
            else:
                v = sum(c.real * self.mval(m, env, mp, cache) for m, c in b.items())
            cache[k] = v
        return v

    def show(self, A, n=6):
        out = []
        for m, c in sorted(A.items(), key=lambda t: -abs(t[1].real))[:n]:
            out.append("%.10g*%s" % (c.real, self.mshow(m)))
        return " + ".join(out) + (" ..." if len(A) > n else "") if out else "0"

    def mshow(self, m):
        return "*".join("%s^%g" % (self.ashow(a), e) for a, e in self.mt[m]) or "1"

    def ashow(self, a):
        k, b = self.kind[a], self.body[a]
        return b if k == "var" else ("exp{%s}" % self.mshow(b) if k == "exp" else
                                     ("log{%s}" % self.ashow(b) if k == "log" else "P%d" % a))


class Lower:
    """DAG nodes -> CAS polynomials"""

    def __init__(self, cas, choose=None, ranges=None, cut=None):
        self.c, self.choose, self.ranges = cas, choose, ranges
        self.memo = {}
        self.cut = cut or {}          # node id -> polynomial
        self.nodes = 0

    def get(self, n):
        if type(n) is not Node:
            return self.c.const(float(n))
        roots = [n]
        memo = self.memo
        if n.id in memo:
            return memo[n.id]
        st = [n]
        while st:
            m = st[-1]
            if m.id in memo:
                st.pop()
                continue
            if m.id in self.cut:
                memo[m.id] = self.cut[m.id]
                st.pop()
                continue
            if m.op == "ite":
                k = self.pick(m)
                a = m.args[1] if k else m.args[2]
                if a.id in memo:
                    memo[m.id] = memo[a.id]
                    st.pop()
                else:
                    st.append(a)
                continue
            if m.op == "fadd" or m.op == "fsub":
                # flatten the chain
                terms, chain = [], [(m, 1.0)]
                pend = []
                while chain:
                    q, s = chain.pop()
                    if q is not m and q.id in memo:
                        terms.append((q, s))
                    elif q.op == "fadd" and (q is m or len(chain) < 4000) and q.id not in self.cut:
                        chain.append((q.args[1], s))
                        chain.append((q.args[0], s))
                    elif q.op == "fsub" and q.id not in self.cut:
                        chain.append((q.args[1], -s))
                        chain.append((q.args[0], s))
                    elif q.op == "fneg" and q.id not in self.cut:
                        chain.append((q.args[0], -s))
                    else:
                        terms.append((q, s))
                        if q.id not in memo:
                            pend.append(q)
                if pend:
                    st.extend(pend)
                    continue
                R = {}
                for q, s in terms:
                    self.c.add_into(R, self.good(memo[q.id]), s)
                memo[m.id] = R
                self.nodes += 1
                st.pop()
                continue
            pend = [a for a in m.args if a.id not in memo]
            if pend:
                st.extend(pend)
                continue
            sq = m.args[0] if (m.op == "fmul" and m.args[0] is m.args[1]) or (m.op == "powi" and m.data == 2) else None
            while sq is not None and sq.op == "ite":
                sq = sq.args[1 if self.pick(sq) else 2]
            if sq is not None and sq.op == "sqrt" and sq.args[0].id in memo:
                memo[m.id] = memo[sq.args[0].id]
                st.pop()
                continue
            try:
                memo[m.id] = self.op(m, [self.good(memo[a.id]) for a in m.args])
            except Unsupported as e:
                if m.op != "sqrt" and type(e) is not DivZero:
                    raise
                memo[m.id] = e
            self.nodes += 1
            st.pop()
        return self.good(memo[n.id])

    def good(self, P):
        if type(P) is not dict:
            raise P
        return P

    def pick(self, m):
        c = m.args[0]
        r = None
        if self.ranges is not None:
            r = self.ranges.decide(None, c)
        if r is None and self.choose is not None:
            r = self.choose(c)
        if r is None:
            raise Unsupported("undecided condition %s" % X.show(c, 4))
        return r

    def op(self, n, a):
        c, op = self.c, n.op
        if op == "const":
            return c.const(X.unbits(n.data))
        if op == "var":
            return c.var(n.data)
        if op == "fneg":
            return c.scale(a[0], -1.0)
        if op == "fmul":
            return c.mul(a[0], a[1])
        if op == "fdiv":
            return c.mul(a[0], c.power(a[1], -1.0))
        if op == "powi":
            return c.power(a[0], n.data)
        if op == "sqrt":
            return c.power(a[0], 0.5)
        if op == "cbrt":
            return c.power(a[0], 1.0 / 3.0)
        if op == "pow":
            if not a[1]:
                return c.const(1.0)
            if list(a[1]) == [0]:
                return c.power(a[0], a[1][0].real)
            return c.exp(c.mul(a[1], c.log(a[0])))
        if op == "exp":
            return c.exp(a[0])
        if op == "exp2":
            return c.exp(c.scale(a[0], math.log(2.0)))
        if op == "expm1":
            return c.add(c.exp(a[0]), c.const(-1.0))
        if op == "log":
            return c.log(a[0])
        if op == "log1p":
            return c.log(c.add(a[0], c.const(1.0)))
        if op == "log10":
            return c.scale(c.log(a[0]), 1 / math.log(10.0))
        if op == "log2":
            return c.scale(c.log(a[0]), 1 / math.log(2.0))
        if op in ("sinh", "cosh", "tanh"):
            e, i = c.exp(a[0]), c.exp(c.scale(a[0], -1.0))
            s = c.scale(c.add(e, i, -1.0), 0.5)
            k = c.scale(c.add(e, i), 0.5)
            return s if op == "sinh" else (k if op == "cosh" else c.mul(s, c.power(k, -1.0)))
        if op == "fma":
            return c.add(c.mul(a[0], a[1]), a[2])
        if op == "fabs":
            iv = self.ranges.iv(n.args[0]) if self.ranges is not None else None
            if iv is not None and iv[0] >= 0:
                return a[0]
            if iv is not None and iv[1] <= 0:
                return c.scale(a[0], -1.0)
            lt = X.fcmp("olt", X._unc(n.args[0]), 0.0)
            r = lt if type(lt) is not Node else (self.choose(lt) if self.choose else None)
            if r is None:
                raise Unsupported("absolute value of unknown sign")
            return c.scale(a[0], -1.0) if r else a[0]
        if op in ("fmax", "fmin"):
            lt = X.fcmp("olt", X._unc(n.args[0]), X._unc(n.args[1]))
            r = lt if type(lt) is not Node else (self.ranges.decide(None, lt) if self.ranges else None)
            if r is None and self.choose:
                r = self.choose(lt)
            if r is None:
                raise Unsupported("undecided %s" % op)
            return a[1] if bool(r) == (op == "fmax") else a[0]
        if op in ("uitofp", "sitofp"):
            raise Unsupported(op)
        raise Unsupported(op)
