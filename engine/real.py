"""DAG nodes as z3 real-arithmetic terms: the arithmetic is exact, anything outside + - * / comparison and choice is an
uninterpreted real (one per distinct node, so equal nodes are equal)."""
import z3
from fractions import Fraction
from . import expr as X
from .expr import Node


class Real:
    def __init__(self, opaque=None, linear=True):
        """opaque: node id -> z3 term; linear: products of two non-constants are uninterpreted"""
        self.memo = dict(opaque or {})
        self.linear = linear
        self.vars, self.cut = {}, {}
        self.side = []
        self.n = 0

    def f(self, x):
        if type(x) is not Node:
            if x != x or x in (float("inf"), float("-inf")):
                return self.fresh("const_%r" % x)
            return z3.RealVal(str(Fraction(x)))
        return self.get(x)

    def fresh(self, name):
        if name not in self.vars:
            self.vars[name] = z3.Real(name)
        return self.vars[name]

    def get(self, n):
        memo = self.memo
        st = [n]
        while st:
            m = st[-1]
            if m.id in memo:
                st.pop()
                continue
            if m.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "ite", "fcmp", "not", "and", "or", "fmax", "fmin", "fma",
                        "powi", "bite", "xor"):
                pend = [a for a in m.args if a.id not in memo]
                if pend:
                    st.extend(pend)
                    continue
            memo[m.id] = self.op(m, [memo.get(a.id) for a in m.args])
            self.n += 1
            st.pop()
        return memo[n.id]

    def isnum(self, t):
        return z3.is_rational_value(t) if t is not None else False

    def op(self, n, a):
        o = n.op
        if o == "const":
            return self.f(X.unbits(n.data)) if n.kind == "f" else (z3.BoolVal(bool(n.data)) if n.width == 1 else z3.IntVal(n.data))
        if o in ("true", "false"):
            return z3.BoolVal(o == "true")
        if o == "iconst":
            return z3.IntVal(n.data)
        if o == "var":
            return self.fresh(n.data) if n.kind == "f" else (z3.Bool(n.data) if n.kind == "b" else z3.Int(n.data))
        if o == "fadd":
            return a[0] + a[1]
        if o == "fsub":
            return a[0] - a[1]
        if o == "fneg":
            return -a[0]
        if o == "fmul" and (not self.linear or self.isnum(a[0]) or self.isnum(a[1])):
            return a[0] * a[1]
        if o == "fdiv" and (self.isnum(a[1]) and a[1].as_fraction() != 0):
            return a[0] / a[1]
        if o == "fdiv" and not self.linear:
            return a[0] / a[1]
        if o == "fma" and (not self.linear or self.isnum(a[0]) or self.isnum(a[1])):
            return a[0] * a[1] + a[2]
        if o == "powi" and not self.linear and 0 < n.data <= 4:
            r = a[0]
            for _ in range(n.data - 1):
                r = r * a[0]
            return r
        if o == "fabs":
            return z3.If(a[0] >= 0, a[0], -a[0])
        if o == "fmax":
            return z3.If(a[0] < a[1], a[1], a[0])
        if o == "fmin":
            return z3.If(a[1] < a[0], a[1], a[0])
        if o in ("ite", "bite") and a[1] is not None:
            return z3.If(a[0], a[1], a[2])
        if o == "fcmp":
            p = n.data
            if p == "ord":
                return z3.BoolVal(True)
            return {"olt": a[0] < a[1], "ole": a[0] <= a[1], "oeq": a[0] == a[1], "one": a[0] != a[1]}[p]
        if o == "not":
            return z3.Not(a[0])
        if o == "and":
            return z3.And(*a)
        if o == "or":
            return z3.Or(*a)
        if o == "xor":
            return z3.Xor(*a)
        if n.kind == "f":
            return self.fresh("u%d" % n.id)
        if n.kind == "b" or n.width == 1:
            return z3.Bool("b%d" % n.id)
        return z3.Int("i%d" % n.id)
