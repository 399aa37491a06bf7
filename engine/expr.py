"""Hash-consed expression DAG for values seen while executing LLVM IR symbolically.

Concrete values stay Python values: float for f64, int for integers (i1 included), Ptr for pointers.
A Node is a symbolic value.  kind: 'f' = f64, 'b' = boolean (i1), 'i' = integer of .width bits.
"""
import math, struct, ctypes

_tab = {}
_ctr = [0]
_libm = ctypes.CDLL("libm.so.6")
for _n, _k in (("exp", 1), ("log", 1), ("pow", 2), ("sin", 1), ("cos", 1), ("tanh", 1), ("sinh", 1),
               ("cosh", 1), ("exp2", 1), ("log2", 1), ("log10", 1), ("log1p", 1), ("expm1", 1), ("cbrt", 1)):
    _f = getattr(_libm, _n)
    _f.restype = ctypes.c_double
    _f.argtypes = [ctypes.c_double] * _k


class Node:
    __slots__ = ("op", "args", "data", "kind", "width", "id", "__weakref__")

    def __repr__(self):
        return show(self)


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def unbits(b):
    return struct.unpack("<d", struct.pack("<Q", b & 0xFFFFFFFFFFFFFFFF))[0]


def mk(op, args=(), data=None, kind="f", width=64):
    key = (op, tuple(a.id for a in args), data, kind, width)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.data, n.kind, n.width = op, tuple(args), data, kind, width
        n.id = _ctr[0]
        _ctr[0] += 1
        _tab[key] = n
    return n


def var(name):
    return mk("var", (), name)


def ivar(name, width=32):
    return mk("var", (), name, "i", width)


def bvar(name):
    return mk("var", (), name, "b", 1)


def fconst(x):
    return mk("const", (), bits(float(x)))


def iconst(v, w):
    return mk("iconst", (), v & ((1 << w) - 1), "i", w)


def asnode(v, kind="f", width=64):
    if isinstance(v, Node):
        return v
    if kind == "f":
        return fconst(v)
    if kind == "b":
        return mk("true" if v else "false", (), None, "b", 1)
    return iconst(int(v), width)


def isconst(n):
    return n.op == "const"


def cval(n):
    return unbits(n.data)


# ---------------------------------------------------------------- concrete floats
def _div(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)


def powi(a, n):
    """compiler-rt __powidf2"""
    recip = n < 0
    n = abs(n)
    r = 1.0
    while True:
        if n & 1:
            r = _mul(r, a)
        n //= 2
        if n == 0:
            break
        a = _mul(a, a)
    return _div(1.0, r) if recip else r


def _mul(a, b):
    return a * b


def _sqrt(a):
    return math.nan if a < 0 else (a if a != a else math.sqrt(a))


CONC = {
    "fadd": lambda a, b: a + b, "fsub": lambda a, b: a - b, "fmul": _mul, "fdiv": _div,
    "fneg": lambda a: -a, "fabs": abs, "sqrt": _sqrt,
    "exp": lambda a: _libm.exp(a), "log": lambda a: _libm.log(a), "pow": lambda a, b: _libm.pow(a, b),
    "sin": lambda a: _libm.sin(a), "cos": lambda a: _libm.cos(a), "exp2": lambda a: _libm.exp2(a),
    "log2": lambda a: _libm.log2(a), "log10": lambda a: _libm.log10(a),
    "sinh": lambda a: _libm.sinh(a), "cosh": lambda a: _libm.cosh(a), "tanh": lambda a: _libm.tanh(a),
    "expm1": lambda a: _libm.expm1(a), "log1p": lambda a: _libm.log1p(a), "cbrt": lambda a: _libm.cbrt(a),
    "fma": lambda a, b, c: float(_fma(a, b, c)),
    "fmax": lambda a, b: b if a != a else (a if b != b else max(a, b)),
    "fmin": lambda a, b: b if a != a else (a if b != b else min(a, b)),
    "copysign": lambda a, b: math.copysign(a, b),
    "floor": lambda a: a if (a != a or math.isinf(a)) else float(math.floor(a)),
    "ceil": lambda a: a if (a != a or math.isinf(a)) else float(math.ceil(a)),
    "trunc": lambda a: a if (a != a or math.isinf(a)) else float(math.trunc(a)),
    "frem": lambda a, b: math.nan if (a != a or b != b or b == 0 or math.isinf(a)) else math.fmod(a, b),
}


def _fma(a, b, c):
    from fractions import Fraction
    if not all(map(math.isfinite, (a, b, c))):
        return a * b + c
    try:
        return float(Fraction(a) * Fraction(b) + Fraction(c))
    except OverflowError:
        return a * b + c


def fop(op, *a):
    """float operation on concrete/symbolic operands"""
    for x in a:
        if type(x) is not float:
            break
    else:
        return CONC[op](*a)
    if op == "fneg":
        x = a[0]
        if x.op == "fneg":
            return x.args[0]
    elif op == "fabs":
        x = a[0]
        if x.op in ("fneg", "fabs"):
            return fop("fabs", x.args[0])
    return mk(op, [x if type(x) is Node else fconst(x) for x in a])


def fpowi(a, n):
    if type(a) is float:
        return powi(a, n)
    return mk("powi", (a,), n)


# ---------------------------------------------------------------- booleans
def bnot(c):
    if type(c) is not Node:
        return 0 if c else 1
    if c.op == "not":
        return c.args[0]
    return mk("not", (c,), None, "b", 1)


def band(*cs):
    out = []
    seen = set()
    for c in cs:
        if type(c) is not Node:
            if not c:
                return 0
            continue
        if c.op == "and":
            sub = c.args
        else:
            sub = (c,)
        for s in sub:
            if s.id not in seen:
                seen.add(s.id)
                out.append(s)
    for s in out:
        n = bnot(s)
        if n.id in seen:
            return 0
    if not out:
        return 1
    if len(out) == 1:
        return out[0]
    return mk("and", out, None, "b", 1)


def bor(*cs):
    out = []
    seen = set()
    for c in cs:
        if type(c) is not Node:
            if c:
                return 1
            continue
        sub = c.args if c.op == "or" else (c,)
        for s in sub:
            if s.id not in seen:
                seen.add(s.id)
                out.append(s)
    for s in out:
        n = bnot(s)
        if n.id in seen:
            return 1
    if not out:
        return 0
    if len(out) == 1:
        return out[0]
    return mk("or", out, None, "b", 1)


def bxor(a, b):
    if type(a) is not Node:
        return bnot(b) if a else b
    if type(b) is not Node:
        return bnot(a) if b else a
    if a is b:
        return 0
    return mk("xor", (a, b), None, "b", 1)


FPRED = {
    "oeq": lambda a, b: a == b, "ogt": lambda a, b: a > b, "oge": lambda a, b: a >= b,
    "olt": lambda a, b: a < b, "ole": lambda a, b: a <= b,
    "one": lambda a, b: a == a and b == b and a != b,
    "ord": lambda a, b: a == a and b == b, "uno": lambda a, b: a != a or b != b,
    "ueq": lambda a, b: a != a or b != b or a == b, "ugt": lambda a, b: not (a <= b),
    "uge": lambda a, b: not (a < b), "ult": lambda a, b: not (a >= b), "ule": lambda a, b: not (a > b),
    "une": lambda a, b: not (a == b), "false": lambda a, b: False, "true": lambda a, b: True,
}
_UNORD = {"ueq": ("one", 1), "ugt": ("ole", 1), "uge": ("olt", 1), "ult": ("oge", 1), "ule": ("ogt", 1),
          "une": ("oeq", 1), "uno": ("ord", 1)}
_SWAP = {"ogt": "olt", "oge": "ole"}


def fcmp(pred, a, b):
    if type(a) is float and type(b) is float:
        return 1 if FPRED[pred](a, b) else 0
    if pred == "true":
        return 1
    if pred == "false":
        return 0
    # canonical: ordered predicates only, with negation; olt/ole/oeq/one/ord only
    if pred in _UNORD:
        return bnot(fcmp(_UNORD[pred][0], a, b))
    if pred in _SWAP:
        pred, a, b = _SWAP[pred], b, a
    an, bn = asnode(a), asnode(b)
    if pred in ("oeq", "one", "ord") and an.id > bn.id:
        an, bn = bn, an
    # ite with concrete leaves: push the comparison inside
    for x, y, sw in ((an, bn, False), (bn, an, True)):
        if x.op == "ite" and isconst(y) and (isconst(x.args[1]) or isconst(x.args[2])):
            p = (lambda u: fcmp(pred, _unc(y), u)) if sw else (lambda u: fcmp(pred, u, _unc(y)))
            return bite(x.args[0], p(_unc(x.args[1])), p(_unc(x.args[2])))
    return mk("fcmp", (an, bn), pred, "b", 1)


def _unc(n):
    """constant nodes back to Python values"""
    if n.op == "const":
        return unbits(n.data)
    if n.op == "iconst":
        return n.data
    if n.op == "true":
        return 1
    if n.op == "false":
        return 0
    return n


def bite(c, a, b):
    if type(c) is not Node:
        return a if c else b
    if a is b or (type(a) is not Node and type(b) is not Node and bool(a) == bool(b)):
        return a
    if type(a) is not Node:
        return bor(c, b) if a else band(bnot(c), b)
    if type(b) is not Node:
        return bor(bnot(c), a) if b else band(c, a)
    return mk("bite", (c, a, b), None, "b", 1)


def fite(c, a, b):
    if type(c) is not Node:
        return a if c else b
    if a is b:
        return a
    if type(a) is float and type(b) is float and bits(a) == bits(b):
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    an, bn = asnode(a), asnode(b)
    if an is bn:
        return a
    # ite(c, ite(c,x,y), z) -> ite(c,x,z)
    if an.op == "ite" and an.args[0] is c:
        an = an.args[1]
    if bn.op == "ite" and bn.args[0] is c:
        bn = bn.args[2]
    if an is bn:
        return _unc(an)
    return mk("ite", (c, an, bn))


_ileaves = {}


def ileaves(n):
    """[(cond, int)] (exclusive, exhaustive conditions) of an integer ite tree with constant leaves, else None"""
    if type(n) is not Node:
        return [(1, n)]
    if n.op == "iconst":
        return [(1, n.data)]
    if n.op != "ite":
        return None
    r = _ileaves.get(n.id)
    if r is None:
        c = n.args[0]
        a, b = ileaves(n.args[1]), ileaves(n.args[2])
        if a is None or b is None:
            r = ()
        else:
            r = [(band(c, k), v) for k, v in a] + [(band(bnot(c), k), v) for k, v in b]
        _ileaves[n.id] = r
    return r or None


def iite(c, a, b, w):
    if type(c) is not Node:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    la, lb = ileaves(a), ileaves(b)
    if la is not None and lb is not None and len(la) + len(lb) > 2:
        d = {}
        for k, v in la:
            d.setdefault(v, []).append(band(c, k))
        nc = bnot(c)
        for k, v in lb:
            d.setdefault(v, []).append(band(nc, k))
        return ichain([(bor(*ks), v) for v, ks in d.items()], w)
    return mk("ite", (c, asnode(a, "i", w), asnode(b, "i", w)), None, "i", w)


def ichain(cs, w):
    """integer ite from exclusive, exhaustive (cond, value) pairs with distinct values"""
    cs = sorted([(k, v) for k, v in cs if type(k) is Node or k], key=lambda t: t[1])
    for k, v in cs:
        if type(k) is not Node:
            return v
    r = iconst(cs[-1][1], w)
    for k, v in cs[-2::-1]:
        r = mk("ite", (k, iconst(v, w), r), None, "i", w)
    _ileaves[r.id] = cs
    return r.data if r.op == "iconst" else r


# ---------------------------------------------------------------- integers
def _s(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def _tdiv(x, y):
    """integer division towards zero"""
    return -(-x // y) if (x < 0) != (y < 0) and x else x // y


ICONC = {
    "add": lambda a, b, w: a + b, "sub": lambda a, b, w: a - b, "mul": lambda a, b, w: a * b,
    "and": lambda a, b, w: a & b, "or": lambda a, b, w: a | b, "xor": lambda a, b, w: a ^ b,
    "shl": lambda a, b, w: a << b if b < w else 0, "lshr": lambda a, b, w: a >> b if b < w else 0,
    "ashr": lambda a, b, w: _s(a, w) >> b,
    "udiv": lambda a, b, w: a // b, "urem": lambda a, b, w: a % b,
    "sdiv": lambda a, b, w: _tdiv(_s(a, w), _s(b, w)), "srem": lambda a, b, w: _s(a, w) - _s(b, w) * _tdiv(_s(a, w), _s(b, w)),
}


def iop(op, a, b, w):
    if type(a) is int and type(b) is int:
        return ICONC[op](a, b, w) & ((1 << w) - 1)
    for x, y, sw in ((a, b, False), (b, a, True)):
        if type(x) is Node and x.op == "ite" and type(y) is int and x.kind == "i":
            ls = ileaves(x)
            if ls is not None:
                d = {}
                for k, v in ls:
                    d.setdefault(iop(op, y, v, w) if sw else iop(op, v, y, w), []).append(k)
                return ichain([(bor(*ks), v) for v, ks in d.items()], w)
    return mk("i" + op, (asnode(a, "i", w), asnode(b, "i", w)), None, "i", w)


IPRED = {
    "eq": lambda a, b, w: a == b, "ne": lambda a, b, w: a != b,
    "ult": lambda a, b, w: a < b, "ule": lambda a, b, w: a <= b,
    "ugt": lambda a, b, w: a > b, "uge": lambda a, b, w: a >= b,
    "slt": lambda a, b, w: _s(a, w) < _s(b, w), "sle": lambda a, b, w: _s(a, w) <= _s(b, w),
    "sgt": lambda a, b, w: _s(a, w) > _s(b, w), "sge": lambda a, b, w: _s(a, w) >= _s(b, w),
}


def icmp(pred, a, b, w):
    if type(a) is int and type(b) is int:
        m = (1 << w) - 1
        return 1 if IPRED[pred](a & m, b & m, w) else 0
    if a is b:
        return 1 if pred in ("eq", "ule", "uge", "sle", "sge") else 0
    for x, y, sw in ((a, b, False), (b, a, True)):
        if type(x) is Node and x.op == "ite" and type(y) is int:
            ls = ileaves(x)
            if ls is not None:
                return bor(*[k for k, v in ls if (icmp(pred, y, v, w) if sw else icmp(pred, v, y, w))])
            f = (lambda u: icmp(pred, y, u, w)) if sw else (lambda u: icmp(pred, u, y, w))
            return bite(x.args[0], f(_unc(x.args[1])), f(_unc(x.args[2])))
    if pred == "ne":
        return bnot(icmp("eq", a, b, w))
    return mk("icmp", (asnode(a, "i", w), asnode(b, "i", w)), (pred, w), "b", 1)


def zext(b, w):
    """boolean node -> integer"""
    return iite(b, 1, 0, w)


# ---------------------------------------------------------------- utilities
def show(n, depth=6):
    if type(n) is not Node:
        return repr(n)
    if n.op == "var":
        return str(n.data)
    if n.op == "const":
        return repr(unbits(n.data))
    if n.op == "iconst":
        return str(n.data)
    if depth == 0:
        return "#%d" % n.id
    d = "" if n.data is None else ":%s" % (n.data,)
    return "(%s%s %s)" % (n.op, d, " ".join(show(a, depth - 1) for a in n.args))


def topo(roots):
    """all nodes below roots, children first"""
    out, seen = [], set()
    st = [(r, False) for r in roots if type(r) is Node]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        for a in n.args:
            if a.id not in seen:
                st.append((a, False))
    return out


def variables(roots):
    return {n.data: n for n in topo(roots) if n.op == "var"}


def evaluate(roots, env):
    """concrete IEEE evaluation; env: var name -> value.  Returns dict id->value."""
    val = {}
    for n in topo(roots):
        op = n.op
        a = [val[x.id] for x in n.args]
        if op == "var":
            v = env[n.data]
        elif op == "const":
            v = unbits(n.data)
        elif op == "iconst":
            v = n.data
        elif op in CONC:
            v = CONC[op](*a)
        elif op == "powi":
            v = powi(a[0], n.data)
        elif op in ("ite", "bite"):
            v = a[1] if a[0] else a[2]
        elif op == "fcmp":
            v = 1 if FPRED[n.data](*a) else 0
        elif op == "icmp":
            m = (1 << n.data[1]) - 1
            v = 1 if IPRED[n.data[0]](a[0] & m, a[1] & m, n.data[1]) else 0
        elif op == "not":
            v = 0 if a[0] else 1
        elif op == "and":
            v = 1 if all(a) else 0
        elif op == "or":
            v = 1 if any(a) else 0
        elif op == "xor":
            v = 1 if bool(a[0]) != bool(a[1]) else 0
        elif op == "true":
            v = 1
        elif op == "false":
            v = 0
        elif op[0] == "i" and op[1:] in ICONC:
            v = ICONC[op[1:]](a[0], a[1], n.width) & ((1 << n.width) - 1)
        elif op in ("izext", "itrunc"):
            v = a[0] & ((1 << n.width) - 1)
        elif op == "isext":
            v = _s(a[0], n.data) & ((1 << n.width) - 1)
        elif op == "uitofp":
            v = float(a[0])
        elif op == "sitofp":
            v = float(_s(a[0], n.data))
        elif op == "fbits":
            v = bits(a[0])
        elif op == "frombits":
            v = unbits(a[0])
        else:
            raise NotImplementedError(op)
        val[n.id] = v
    return val


def evalone(n, env):
    if type(n) is not Node:
        return n
    return evaluate([n], env)[n.id]
