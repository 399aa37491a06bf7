"""Interval reasoning over expression nodes: decides comparisons from the stated ranges of the input variables."""
import math
from . import expr as X
from .expr import Node

INF = math.inf


def dn(x):
    return math.nextafter(x, -INF)


def up(x):
    return math.nextafter(x, INF)


class Ranges:
    """ranges: variable name -> (lo, hi); values are finite unless a bound is infinite; unknown variables: no range"""

    def __init__(self, ranges):
        self.r = dict(ranges)
        self.cache = {}

    def iv(self, n):
        """(lo, hi) of a node that is certainly not NaN, or None"""
        if type(n) is not Node:
            return (n, n) if n == n else None
        c = self.cache
        if n.id in c:
            return c[n.id]
        st = [n]
        while st:
            m = st[-1]
            if m.id in c:
                st.pop()
                continue
            todo = [a for a in m.args if a.kind == "f" and a.id not in c]
            if todo:
                st.extend(todo)
                continue
            c[m.id] = self._iv(m)
            st.pop()
        return c[n.id]

    def _iv(self, n):
        op = n.op
        if op == "const":
            v = X.unbits(n.data)
            return (v, v) if v == v else None
        if op == "var":
            return self.r.get(n.data)
        if n.kind != "f":
            return None
        if op in ("uitofp", "sitofp"):
            return None
        a = [self.cache[x.id] if x.kind == "f" else (0, 0) for x in n.args]
        if any(x is None for x in a):
            return None
        if op == "ite":
            return (min(a[1][0], a[2][0]), max(a[1][1], a[2][1]))
        if op == "fadd" or op == "fsub":
            (l, h), (p, q) = a
            if op == "fsub":
                p, q = -q, -p
            if l == h == 0.0:
                return (p, q)
            if p == q == 0.0:
                return (l, h)
            if (l == -INF and q == INF) or (h == INF and p == -INF):
                return None
            return (dn(l + p), up(h + q))
        if op == "fneg":
            return (-a[0][1], -a[0][0])
        if op == "fabs":
            l, h = a[0]
            return (0.0 if l <= 0 <= h else min(abs(l), abs(h)), max(abs(l), abs(h)))
        if op == "fmul":
            return self.mul(a[0], a[1], n.args[0] is n.args[1])
        if op == "fdiv":
            (l, h), (p, q) = a
            if p <= 0 <= q:
                return None
            v = []
            for x in (l, h):
                for y in (p, q):
                    if math.isinf(x) and math.isinf(y):
                        return None
                    v.append(x / y)
            return (dn(min(v)), up(max(v)))
        if op == "exp":
            def e(x):
                try:
                    return math.exp(x)
                except OverflowError:
                    return INF
            return (max(0.0, dn(dn(e(a[0][0])))), up(up(e(a[0][1]))))
        if op == "log":
            l, h = a[0]
            if l < 0:
                return None
            return (-INF if l == 0 else (dn(dn(math.log(l))) if l < INF else INF),
                    -INF if h == 0 else (INF if h == INF else up(up(math.log(h)))))
        if op == "sqrt":
            l, h = a[0]
            if l < 0:
                return None
            return (max(0.0, dn(math.sqrt(l))), INF if h == INF else up(math.sqrt(h)))
        if op == "powi":
            k = n.data
            if k == 0:
                return (1.0, 1.0)
            r = a[0]
            if r[0] > 0:
                return self.pw(r, float(k))
            if k > 0:
                m = max(abs(r[0]), abs(r[1]))
                try:
                    m = up(m ** k)
                except OverflowError:
                    m = INF
                return (0.0 if k % 2 == 0 else -m, m)
            return None
        if op == "pow":
            (l, h), (p, q) = a
            if l <= 0 or p != q:
                return None
            return self.pw((l, h), p)
        if op == "fmax":
            return (max(a[0][0], a[1][0]), max(a[0][1], a[1][1]))
        if op == "fmin":
            return (min(a[0][0], a[1][0]), min(a[0][1], a[1][1]))
        return None

    def pw(self, r, p):
        def f(x):
            if x == INF:
                return INF if p > 0 else 0.0
            try:
                return x ** p
            except OverflowError:
                return INF
        v = (f(r[0]), f(r[1]))
        l, h = min(v), max(v)
        return (max(0.0, l * (1 - 1e-12)), h * (1 + 1e-12))

    def mul(self, a, b, sq):
        (l, h), (p, q) = a, b
        if (l == h == 0.0 and not math.isinf(p) and not math.isinf(q)) or (p == q == 0.0 and not math.isinf(l) and not math.isinf(h)):
            return (0.0, 0.0)
        v = []
        for x in (l, h):
            for y in (p, q):
                if (x == 0 and math.isinf(y)) or (y == 0 and math.isinf(x)):
                    return None
                v.append(x * y)
        lo, hi = dn(min(v)), up(max(v))
        if sq:
            lo = max(lo, 0.0)
        return (lo, hi)

    def decide(self, st, c):
        if c.op == "not":
            v = self.decide(st, c.args[0])
            return None if v is None else 1 - v
        if c.op in ("and", "or"):
            vs = [self.decide(st, a) for a in c.args]
            z = 0 if c.op == "and" else 1
            return z if z in vs else (None if None in vs else 1 - z)
        if c.op != "fcmp":
            return None
        a, b = self.iv(c.args[0]), self.iv(c.args[1])
        if a is None or b is None:
            return None
        p = c.data
        if p == "ord":
            return 1
        if p == "olt":
            return 1 if a[1] < b[0] else (0 if a[0] >= b[1] else None)
        if p == "ole":
            return 1 if a[1] <= b[0] else (0 if a[0] > b[1] else None)
        if p in ("oeq", "one"):
            if a[1] < b[0] or b[1] < a[0]:
                return 0 if p == "oeq" else 1
            if a[0] == a[1] == b[0] == b[1]:
                return 1 if p == "oeq" else 0
        return None


class SumRanges(Ranges):
    """additionally: the listed variables add up to at least total, so one of them is at least total/n (case split)"""

    def __init__(self, ranges, names, total=0.98):
        Ranges.__init__(self, ranges)
        self.split = []
        for k in names:
            r = dict(ranges)
            r[k] = (max(r[k][0], total / len(names) * 0.999), r[k][1])
            self.split.append(Ranges(r))

    def decide(self, st, c):
        v = Ranges.decide(self, st, c)
        if v is None and self.split:
            v = self.split[0].decide(st, c)
            for s in self.split[1:]:
                if v is None or s.decide(st, c) != v:
                    return None
        return v
