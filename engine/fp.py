"""DAG nodes as z3 IEEE-754 terms (bit-precise)."""
import z3
from . import expr as X
from .expr import Node

F64 = z3.Float64()
RNE = z3.RNE()


OPAQUE = {"fadd", "fsub", "fmul", "fdiv", "sqrt", "fma", "powi", "pow", "exp", "log"}


class FP:
    def __init__(self, sub=None, arith=True):
        """sub: node id -> z3 FP term; arith=False: arithmetic results are free values (one per distinct term), so a
        claim that holds does not depend on what the arithmetic computes"""
        self.arith = arith
        self.memo = dict(sub or {})
        self.vars = {}
        self.opaque = []

    def var(self, name):
        if name not in self.vars:
            self.vars[name] = z3.FP(name, F64)
        return self.vars[name]

    def val(self, x):
        return z3.FPVal(x, F64)

    def b(self, c):
        return self.get(c) if type(c) is Node else z3.BoolVal(bool(c))

    def f(self, x):
        return self.get(x) if type(x) is Node else self.val(x)

    def get(self, n):
        memo, st = self.memo, [n]
        while st:
            m = st[-1]
            if m.id in memo:
                st.pop()
                continue
            if not self.arith and m.kind == "f" and m.op in OPAQUE:
                memo[m.id] = z3.FP("u%d" % m.id, F64)
                self.opaque.append(m)
                st.pop()
                continue
            pend = [a for a in m.args if a.id not in memo]
            if pend:
                st.extend(pend)
                continue
            memo[m.id] = self.op(m, [memo[a.id] for a in m.args])
            st.pop()
        return memo[n.id]

    def op(self, n, a):
        o = n.op
        if o == "const":
            return self.val(X.unbits(n.data))
        if o in ("true", "false"):
            return z3.BoolVal(o == "true")
        if o == "var":
            return self.var(n.data) if n.kind == "f" else (z3.Bool(n.data) if n.kind == "b" or n.width == 1 else z3.BitVec(n.data, n.width))
        two = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}
        if o in two:
            return two[o](RNE, a[0], a[1])
        if o == "fneg":
            return z3.fpNeg(a[0])
        if o == "fabs":
            return z3.fpAbs(a[0])
        if o == "sqrt":
            return z3.fpSqrt(RNE, a[0])
        if o == "fmax":
            return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpLT(a[0], a[1]), a[1], a[0])))
        if o == "fmin":
            return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpLT(a[1], a[0]), a[1], a[0])))
        if o in ("ite", "bite") and n.kind in "fb":
            return z3.If(a[0], a[1], a[2])
        if o == "fcmp":
            p = n.data
            if p == "ord":
                return z3.And(z3.Not(z3.fpIsNaN(a[0])), z3.Not(z3.fpIsNaN(a[1])))
            if p == "one":
                return z3.And(z3.Not(z3.fpIsNaN(a[0])), z3.Not(z3.fpIsNaN(a[1])), z3.Not(z3.fpEQ(a[0], a[1])))
            return {"olt": z3.fpLT, "ole": z3.fpLEQ, "oeq": z3.fpEQ}[p](a[0], a[1])
        if o == "not":
            return z3.Not(a[0])
        if o == "and":
            return z3.And(*a)
        if o == "or":
            return z3.Or(*a)
        if o == "xor":
            return z3.Xor(*a)
        if o == "iconst":
            return z3.BitVecVal(n.data, n.width)
        if o == "fbits":
            return z3.fpToIEEEBV(a[0])
        if o == "frombits":
            return z3.fpBVToFP(a[0], F64)
        bv = {"iadd": lambda x, y: x + y, "isub": lambda x, y: x - y, "imul": lambda x, y: x * y, "iand": lambda x, y: x & y,
              "ior": lambda x, y: x | y, "ixor": lambda x, y: x ^ y, "ishl": lambda x, y: x << y, "ilshr": z3.LShR,
              "iashr": lambda x, y: x >> y, "iudiv": z3.UDiv, "iurem": z3.URem, "isdiv": lambda x, y: x / y, "isrem": z3.SRem}
        if o in bv:
            return bv[o](a[0], a[1])
        if o == "izext":
            return z3.ZeroExt(n.width - n.data, a[0])
        if o == "isext":
            return z3.SignExt(n.width - n.data, a[0])
        if o == "itrunc":
            return z3.Extract(n.width - 1, 0, a[0])
        if o == "ite":
            return z3.If(a[0], a[1], a[2])
        if o == "icmp":
            return {"eq": lambda x, y: x == y, "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE,
                    "slt": lambda x, y: x < y, "sle": lambda x, y: x <= y, "sgt": lambda x, y: x > y,
                    "sge": lambda x, y: x >= y}[n.data[0]](a[0], a[1])
        self.opaque.append(n)
        return z3.FP("u%d" % n.id, F64) if n.kind == "f" else z3.Bool("b%d" % n.id)

    def model(self, mo, name):
        """value of an FP variable in a model as a Python float"""
        import struct
        v = mo.eval(z3.fpToIEEEBV(self.vars[name]), model_completion=True)
        if z3.is_bv_value(v):
            return X.unbits(v.as_long())
        v = mo.eval(self.vars[name], model_completion=True)
        if z3.is_fp_value(v) and v.isNaN():
            return float("nan")
        return float(eval(str(v)))
