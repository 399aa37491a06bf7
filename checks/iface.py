"""C13 C interface, C14 no panic/hang/stray access, C15 handles, C16 frames, C18 leftover density."""
import ctypes, math, os, sys, time, itertools, subprocess, json, struct
import z3
from engine import expr as X, exec as EX
from engine.expr import Node
from engine.session import Sess, COMP, DEC, NX, Ptr, PUB, PROPS, OUTS
from engine.fp import FP, F64
from engine.report import Inconclusive
from checks.comp import comp_obj, comp_get, NAMES, rcleaves, Lib

PRE = {"d": "aga8_", "g": "gerg_"}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P8 = ctypes.c_void_p
DBL = ctypes.c_double


UF = z3.DeclareSort("F64")


def frame(ck, cells, n):
    """one obligation: the words of `cells` [(old, new)] that are the same term are equal (solved in EUF over the
    hash-consed terms); n: number of words compared"""
    s = z3.SolverFor("QF_UF")
    k = lambda v: z3.Const("n%d" % v.id if type(v) is Node else "c%s" % (X.bits(v) if type(v) is float else repr(v)), UF)
    s.add(z3.Or([k(a) != k(b) for a, b in cells] + [z3.BoolVal(False)]))
    ck.obl += 1
    ck.extra["memory_words_compared"] = ck.extra.get("memory_words_compared", 0) + n
    if ck.sat(s) == "unsat":
        ck.disch += 1


def wordsof(S, E, st, m, o, offs):
    return [E.load(st, Ptr(o.obj, k), 8, True) for k in offs]


# ------------------------------------------------------------------------------------------ concrete states for replay
def states(S, m, rng, model=None, f=None, n=40):
    """concrete model images to replay on: the solver's assignment first, then used models in ordinary and odd states"""
    N = S.N
    if model is not None:
        i = N.new(m)
        for name in list(f.vars):
            v = f.model(model, name)
            if name[0] == "h" and name[1:].isdigit():
                i.at(int(name[1:])).value = v
            elif name[0] == "x" and name[1:].isdigit():
                i.at(N.off[m]["x"] + 8 * int(name[1:]) + (8 if m == "g" else 0)).value = v
            elif name == "x_0":
                i.at(N.off[m]["x"]).value = v
        # what the solver left open: an ordinary state
        if sum(1 for v in i.getx() if v > 0) == 0 and not any(k[0] == "x" and k[1:].isdigit() for k in f.vars):
            i.setx([1.0 / 21] * 21)
        for nm, v in (("t", 300.0), ("p", 3000.0), ("d", 1.0)):
            if "h%d" % N.off[m][nm] not in f.vars:
                setattr(i, nm, v)
        yield i, {k: f.model(model, k) for k in f.vars if k[0] != "u"}
    spec = [0.0, -0.0, math.nan, math.inf, -math.inf, -1.0, 1e-20, -1e-20, 5e-324, 1e300]
    for k in range(n):
        i = N.new(m)
        if k == 1:
            yield i, {"fresh": True}
            continue
        comps = [[1.0 / 21] * 21, [0.9, 0.02, 0.02, 0.03, 0.02, 0.01] + [0.0] * 15, [0.0] * 17 + [1.0] + [0.0] * 3,
                 [1.0] + [0.0] * 20, [0.5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0.5] + [0.0] * 7]
        i.setx(comps[k % len(comps)])
        i.t = rng.choice([200.0, 250.0, 300.0, 400.0, 600.0])
        i.p = rng.choice([1.0, 100.0, 5000.0, 20000.0, 50000.0])
        i.d = rng.choice([0.0, 0.1, 2.0, 10.0])
        i.properties()
        if k % 3 != 2:
            i.p = rng.choice([1.0, 100.0, 5000.0, 20000.0, 50000.0, 200000.0])
            i.density()
        if k % 2 == 0:
            fld = rng.choice("tpd")
            setattr(i, fld, rng.choice(spec))
        if k % 5 == 4:
            i.d = -rng.choice([1.0, 10.0, 1e-3])
        yield i, {"t": i.t, "p": i.p, "d": i.d, "x": i.getx()}


def raw(i):
    return ctypes.string_at(i.a, i.nat.size[i.m])


def put(i, b):
    ctypes.memmove(i.a, b, len(b))


def words(b):
    return struct.unpack("<%dd" % (len(b) // 8), b[:len(b) // 8 * 8])


def worddiff(a, b):
    """offsets of 8-byte words that differ; two NaNs are the same"""
    return [8 * k for k, (u, v) in enumerate(zip(words(a), words(b))) if not (u == v and X.bits(u) == X.bits(v) or u != u and v != v)]


def fieldname(S, m, off):
    for f, o in S.N.off[m].items():
        if off == o:
            return f
    x0 = S.N.off[m]["x"]
    if x0 <= off < x0 + 8 * NX[m]:
        return "x[%d]" % ((off - x0) // 8)
    return "private word at %d" % off


# ------------------------------------------------------------------------------------------ symbolic helpers
def sym_model(S, E, st, m, prefix=""):
    """a model in an arbitrary state: every input, result and cached cell is free"""
    o = S.model(E, st, m)
    S.havoc(E, st, m, o, prefix + "h")
    S.put(E, st, m, o, "x", [X.var(prefix + "x%d" % k) for k in range(21)])
    return o


def single(r, E, what):
    if E.events or len(r) != 1:
        raise Inconclusive("%s: %d outcomes, events %r" % (what, len(r), [(k, i) for k, i, _ in E.events][:3]))
    return r[0]


def equal(ck, pairs, assume=()):
    """[(label, a, b)] -> list of (label, z3 model, FP) that can differ"""
    out = []
    for label, a, b in pairs:
        ck.obl += 1
        if EX.same(a, b):
            ck.disch += 1
            continue
        if a is EX.UNDEF or b is EX.UNDEF:
            out.append((label, None, None))
            continue
        f = FP(arith=False)
        s = z3.Solver()
        s.add(f.f(a) != f.f(b))
        for c in assume:
            s.add(f.b(c))
        if ck.sat(s, 200) == "unsat":
            ck.disch += 1
        else:
            out.append((label, s.model(), f))
    return out


def asf(v):
    """integer/float return value for comparison"""
    return v


# ------------------------------------------------------------------------------------------ C13
def c13(ck):
    S = Sess(native=("3",))
    N, L = S.N, Lib(S.N)
    ck.bounds += ["every argument value and every content of the model's inputs, results and cached cells; handle valid",
                  "calculate_density: the complete iteration (20 or 50 steps)"]
    ck.assumptions += ["floating-point arithmetic is uninterpreted: equality means the same operations on the same values"]
    decode = {0: N.lib.vh_de_Ok(), 1: N.lib.vh_de_IterationFail(), 2: N.lib.vh_de_PressureTooLow(), 10: N.lib.vh_de_Ok()}
    cecode = {0: N.lib.vh_ce_Ok(), 1: N.lib.vh_ce_Empty(), 2: N.lib.vh_ce_BadSum(), 10: N.lib.vh_ce_Ok()}
    desz, cesz = N.lib.vh_de_size(), N.lib.vh_ce_size()
    for m in "dg":
        names = ["set_pressure", "get_pressure", "set_temperature", "get_temperature", "set_density", "get_density", "get_properties",
                 "calculate_pressure", "calculate_molar_mass", "calculate_density", "calculate_properties", "set_composition"]
        for fn in names:
            E = S.engine()
            E.deadline = ck.deadline
            base = EX.State()
            o = sym_model(S, E, base, m)
            v = X.var("arg")
            sa, sb = base.fork(), base.fork()
            args, ref, out = [o], None, None
            if fn.startswith("set_") and fn != "set_composition":
                args.append(v)
            if fn == "set_composition":
                out = E.new_obj(sa, 8, "heap", "err")
                E.store(sa, out, X.ivar("olderr", 8 * cesz), cesz)
                args += [comp_obj(S, E, sa), out]
            if fn == "calculate_density":
                out = E.new_obj(sa, 8, "heap", "err")
                E.store(sa, out, X.ivar("olderr", 8 * desz), desz)
                args.append(out)
            rec = None
            if fn == "get_properties":
                rec = E.new_obj(sa, N.psize, "heap", "record")
                args = [rec, o]
            sa, ra = single(E.run("@" + PRE[m] + fn, args, sa), E, fn)
            S.note(E)
            # what the Rust interface does
            fld = {"pressure": "p", "temperature": "t", "density": "d"}.get(fn[4:])
            rb = None
            if fn.startswith("set_") and fld:
                S.put(E, sb, m, o, fld, v)
            elif fn.startswith("get_") and fld:
                rb = S.get(E, sb, m, o, fld)
            elif fn == "set_composition":
                c = comp_obj(S, E, sb)
                sb, rc = single(E.run("@vh_%s_set" % m, [o, c], sb), E, "set_composition")
            elif fn == "calculate_density":
                sb, rc = single(S.call(E, m, "density", o, sb, 0), E, "density")
            elif fn == "calculate_pressure":
                sb, rb = single(S.call(E, m, "pressure", o, sb), E, "pressure")
            elif fn == "calculate_molar_mass":
                sb, rb = single(S.call(E, m, "molar_mass", o, sb), E, "molar_mass")
                rb = S.get(E, sb, m, o, "mm")
            elif fn == "calculate_properties":
                sb, _ = single(S.call(E, m, "properties", o, sb), E, "properties")
            S.note(E)
            pairs = []
            if rb is not None:
                pairs.append(("return value", ra, rb))
            if out is not None:
                sz, code = (cesz, cecode) if fn == "set_composition" else (desz, decode)
                got = E.load(sa, out, sz, False)
                gl, wl = X.ileaves(got), X.ileaves(rc)
                if gl is None or wl is None:
                    # an error code left unset on some path
                    pairs.append(("error output", 1.0, 0.0) if gl is None else ("error output", 0.0, 1.0))
                else:
                    want = {}
                    for c, k in wl:
                        want.setdefault(code[k], []).append(c)
                    have = {}
                    for c, k in gl:
                        have.setdefault(k, []).append(c)
                    for k in set(want) | set(have):
                        a = X.bor(*have[k]) if k in have else 0
                        b = X.bor(*want[k]) if k in want else 0
                        pairs.append(("error output %d" % k, X.fite(a, 1.0, 0.0) if type(a) is Node else float(bool(a)),
                                      X.fite(b, 1.0, 0.0) if type(b) is Node else float(bool(b))))
                    ck.witnesses += len(want) > 1
            if rec is not None:
                for f in PROPS:
                    pairs.append(("record field %s" % f, E.load(sa, Ptr(rec.obj, N.poff[f]), 8, True), S.get(E, sb, m, o, f)))
                ck.witnesses += 1
            ch = S.changed(E, sa, N.size[m], S.snap(sb, o), S.snap(sa, o))
            pairs += [("model field %s" % fieldname(S, m, off), a, b) for off, b, a in ch]
            co = set(c[0] for c in ch)
            offs = [k for k in S.statecells(m) if k not in co]
            frame(ck, list(zip(wordsof(S, E, sb, m, o, offs), wordsof(S, E, sa, m, o, offs))), N.size[m] // 8 - len(ch))
            bad = equal(ck, pairs)
            if bad:
                c13_replay(ck, S, L, m, fn, bad, decode, cecode)
            else:
                c13_validate(ck, S, L, m, fn, decode, cecode)
            ck.functions |= S.encoded
    ck.samples += ["24 functions compared on arbitrary states; new and free: see C15"]


def c13_concrete(S, L, m, fn, i, arg, decode, cecode, comp=None):
    """run the C function and the Rust operation natively from the same image; None or what differs"""
    N = S.N
    f = getattr(N.lib, PRE[m] + fn)
    a, b = N.new(m), N.new(m)
    put(a, raw(i))
    put(b, raw(i))
    A, B = P8(a.a), P8(b.a)
    fld = {"pressure": "p", "temperature": "t", "density": "d"}.get(fn[4:])
    ra = rb = None
    if fn.startswith("set_") and fld:
        f.restype = None
        f(A, DBL(arg))
        setattr(b, fld, arg)
    elif fn.startswith("get_") and fld:
        ra, rb = f(A), getattr(b, fld)
    elif fn == "get_properties":
        class Rec(ctypes.Structure):
            _fields_ = [("f%d" % k, DBL) for k in range(N.psize // 8)]
        f.restype = Rec
        r = f(A)
        w = [getattr(r, "f%d" % k) for k in range(N.psize // 8)]
        for p in PROPS:
            u, v = w[N.poff[p] // 8], getattr(b, p)
            if not (u == v or u != u and v != v):
                return "record field %s is %r, the model has %r" % (p, u, v)
    elif fn == "set_composition":
        f.restype = None
        err = ctypes.c_int(77)
        f(A, comp, ctypes.byref(err))
        want = cecode[getattr(N.lib, "vh_%s_set" % m)(B, comp)]
        got = err.value & ((1 << (8 * N.lib.vh_ce_size())) - 1)
        if got != want:
            return "error output is %d, the Rust call's verdict is %d" % (got, want)
    elif fn == "calculate_density":
        f.restype = None
        err = ctypes.c_int(77)
        f(A, ctypes.byref(err))
        want = decode[b.density(0)]
        got = err.value & ((1 << (8 * N.lib.vh_de_size())) - 1)
        if got != want:
            return "error output is %d, the Rust call's verdict is %d" % (got, want)
    elif fn == "calculate_pressure":
        ra, rb = f(A), b.pressure()
    elif fn == "calculate_molar_mass":
        ra = f(A)
        b.molar_mass()
        rb = b.mm
    elif fn == "calculate_properties":
        f.restype = None
        f(A)
        b.properties()
    if ra is not None and not (ra == rb or ra != ra and rb != rb):
        return "returns %r, the Rust interface gives %r" % (ra, rb)
    d = worddiff(raw(a), raw(b))
    if d:
        return "leaves %s = %r, the Rust interface leaves %r" % (fieldname(S, m, d[0]), a.at(d[0]).value, b.at(d[0]).value)
    return None


def comps():
    yield [1.0 / 21] * 21
    yield [0.0] * 21
    yield [0.9] + [0.5] * 20
    yield [(k + 1) / 231.0 for k in range(21)]
    yield [math.nan] + [0.5] * 20


def c13_replay(ck, S, L, m, fn, bad, decode, cecode):
    label, mo, f = bad[0]
    import random
    for i, desc in states(S, m, random.Random(ck.seed), mo, f):
        for arg in ([f.model(mo, "arg")] if f is not None and "arg" in f.vars else []) + [1234.5, -0.0, 1e9]:
            for c in ([[f.model(mo, n) if n in f.vars else 0.0 for n in NAMES]] if f is not None and fn == "set_composition" else []) + list(comps()):
                w = c13_concrete(S, L, m, fn, i, arg, decode, cecode, L.comp(c))
                if w:
                    ck.violation("%s:%s" % (fn, m), "%s%s %s (argument %r, model %r)" % (PRE[m], fn, w, arg, desc),
                                 dict(function=PRE[m] + fn, arg=arg, state=desc, composition=c))
                    return
                if fn != "set_composition":
                    break
            if not fn.startswith("set_"):
                break
    raise Inconclusive("%s%s: %s differs symbolically, not reproduced" % (PRE[m], fn, label))


def c13_validate(ck, S, L, m, fn, decode, cecode):
    import random
    for i, desc in states(S, m, random.Random(ck.seed), n=3):
        w = c13_concrete(S, L, m, fn, i, 12.5, decode, cecode, L.comp([1.0 / 21] * 21))
        if w:
            raise Inconclusive("%s%s: proved equal but the compiled code %s" % (PRE[m], fn, w))
    ck.validated += 1


# ------------------------------------------------------------------------------------------ C16
OPS = {"pressure": ("x", "t", "p", "d"), "density": ("x", "t", "p"), "properties": ("x", "t", "d", "p"), "molar_mass": None}


def c16(ck):
    S = Sess(native=("3",))
    N = S.N
    ck.bounds += ["every content of the model's inputs, results and cached cells, every mode flag; complete iteration in density()"]
    ck.assumptions += ["floating-point arithmetic is uninterpreted"]
    import random
    for m in "dg":
        for op, keep in OPS.items():
            E = S.engine()
            E.deadline = ck.deadline
            st = EX.State()
            o = sym_model(S, E, st, m)
            before, s0 = S.snap(st, o), st.fork()
            a = (X.ivar("flag"),) if op == "density" else ()
            st, ret = single(S.call(E, m, op, o, st, *a), E, op)
            ch = S.changed(E, st, N.size[m], before, S.snap(st, o))
            guard = set()
            for f in keep or PUB:
                if f == "mm" and keep is None or f == "p" and op == "properties" and m == "d":
                    continue
                n = NX[m] if f == "x" else 1
                guard |= set(N.off[m][f] + 8 * k for k in range(n))
            if keep is None:      # molar_mass: nothing but mm
                guard = set(range(0, N.size[m], 8)) - {N.off[m]["mm"]}
            bad = equal(ck, [(fieldname(S, m, off), b, v) for off, b, v in ch if off in guard])
            offs = sorted(guard - set(c[0] for c in ch))
            frame(ck, list(zip(wordsof(S, E, s0, m, o, offs), wordsof(S, E, st, m, o, offs))), len(offs))
            # the calculation does something
            if any(off not in guard for off, _, _ in ch):
                ck.witnesses += 1
            ck.functions |= S.encoded
            hit = None
            for label, mo, f in bad[:4]:
                for i, desc in states(S, m, random.Random(ck.seed), mo, f, n=200):
                    b0 = raw(i)
                    fl = [0]
                    if op == "density" and m == "g":
                        fl = [0, 1, 2]
                    for flag in fl:
                        put(i, b0)
                        i.density(flag) if op == "density" else getattr(i, op)()
                        d = [k for k in worddiff(b0, raw(i)) if k in guard]
                        if d:
                            hit = "%s.%s(%s) changes %s from %r to %r (state %r)" % (
                                DEC[m], op, flag if op == "density" and m == "g" else "", fieldname(S, m, d[0]),
                                words(b0)[d[0] // 8], i.at(d[0]).value, desc)
                            ck.violation("%s:%s:%s" % (m, op, fieldname(S, m, d[0])), hit, dict(state=desc, flag=flag))
                            break
                    if hit:
                        break
                if hit:
                    break
            if bad and not hit and not ck.found:
                raise Inconclusive("%s.%s may change %s, not reproduced" % (DEC[m], op, bad[0][0]))
            for i, desc in states(S, m, random.Random(ck.seed), n=2):
                b0 = raw(i)
                i.density(0) if op == "density" else getattr(i, op)()
                if not hit and [k for k in worddiff(b0, raw(i)) if k in guard]:
                    raise Inconclusive("%s.%s: proved unchanged but the compiled code changes an input" % (DEC[m], op))
                ck.validated += 1


# ------------------------------------------------------------------------------------------ C18
def c18(ck):
    S = Sess(native=("3",))
    N = S.N
    ck.bounds += ["every pressure, temperature and composition; leftover density: every value >= 0 and NaN; leftover results: every value; explicit guess: every value in [-1000, -1.0000001e-15]",
                  "default mode (flag 0), complete iteration"]
    ck.assumptions += ["floating-point arithmetic is uninterpreted", "leftovers in (-1e-15, 0) count as no guess"]
    import random
    for m in "dg":
        def run(dval, decide=None, watch=False, tag="old"):
            E = S.engine(decide)
            E.deadline = ck.deadline
            st = EX.State()
            o = sym_model(S, E, st, m)
            S.put(E, st, m, o, "d", dval)
            for f in OUTS:
                S.put(E, st, m, o, f, X.var(tag + "_" + f))
            first = []
            if watch:
                def w(s2, v):
                    if not first:
                        first.append(E.load(s2, Ptr(o.obj, N.off[m]["d"]), 8, True))
                E.watch = (o.obj, (N.off[m]["z"],), w)
            st, ret = single(S.call(E, m, "density", o, st, 0), E, "density")
            return ret, S.get(E, st, m, o, "d"), first
        dn = X.var("left")
        asm = {}
        kind = {}

        def only(n):
            """0: no variable, 1: the leftover only, 2: others too"""
            todo = [n]
            while todo:
                q = todo[-1]
                if q.id in kind:
                    todo.pop()
                    continue
                if q.op == "var":
                    kind[q.id] = 1 if q.data == "left" else 2
                    continue
                if any(kind.get(a.id) == 2 for a in q.args):
                    kind[q.id] = 2
                    continue
                pend = [a for a in q.args if a.id not in kind]
                if pend:
                    todo.append(pend[0])
                    continue
                kind[q.id] = max([kind[a.id] for a in q.args] + [0])
            return kind[n.id]

        def domain(c):
            """conditions over the leftover alone, decided by the solver over its domain"""
            def dec(st, n):
                if only(n) != 1:
                    return None
                if n.id not in asm:
                    r = []
                    for neg in (0, 1):
                        f = FP()
                        s = z3.Solver()
                        s.add(c(f.var("left")))
                        t = f.get(n)
                        s.add(z3.Not(t) if neg else t)
                        ck.obl += 1
                        ck.disch += 1
                        r.append(ck.sat(s, 60) == "sat")
                    asm[n.id] = None if all(r) else int(r[0])
                return asm[n.id]
            return dec
        z = z3.FPVal(0.0, F64)
        r0, d0, _ = run(0.0)
        nonneg = lambda v: z3.Or(z3.fpIsNaN(v), z3.fpGEQ(v, z))
        r1, d1, _ = run(dn, domain(nonneg), tag="other")
        S_bad = equal(ck, [("density left behind", d0, d1),
                           ("verdict", verdictf(r0), verdictf(r1))])
        hit = False
        if S_bad:
            for i, desc in states(S, m, random.Random(ck.seed), n=60):
                i.d = 0.0
                b0 = raw(i)
                q0 = i.density(0)
                e0 = i.d
                for left in (1e-3, 1.0, 5.0, 20.0, 1e5, math.inf, math.nan, 1e-20, 5e-324, 1e-15, 1e300, 2e-10):
                    put(i, b0)
                    i.d = left
                    q1 = i.density(0)
                    if q0 != q1 or not (X.bits(e0) == X.bits(i.d) or e0 != e0 and i.d != i.d):
                        ck.violation("%s:leftover" % m, "%s.density() with leftover density %r gives (%d, %r), with 0 it gives (%d, %r) at %r" % (
                            DEC[m], left, q1, i.d, q0, e0, desc), dict(state=desc, left=left))
                        hit = True
                        break
                for v in () if hit else (0.4, 0.05, 0.9, 1.5, 30.0, 400.0, 2.5e-6, -1.0, 0.31, 0.99):
                    put(i, b0)
                    for f in OUTS:
                        setattr(i, f, v)
                    q1 = i.density(0)
                    if q0 != q1 or not (X.bits(e0) == X.bits(i.d) or e0 != e0 and i.d != i.d):
                        ck.violation("%s:leftover" % m, "%s.density() with every result field left at %r gives (%d, %r), with those of the state (%d, %r) at %r" % (
                            DEC[m], v, q1, i.d, q0, e0, desc), dict(state=desc, leftover_results=v))
                        hit = True
                        break
                if hit:
                    break
            if not hit and not ck.found:
                raise Inconclusive("%s.density() depends on the leftover density, not reproduced" % DEC[m])
        ck.witnesses += 1
        # explicit guess
        asm.clear()
        neg = lambda v: z3.fpLT(v, z3.FPVal(-1.0000001e-15, F64))
        r2, d2, first = run(dn, domain(neg), True)
        if not first:
            raise Inconclusive("no state is evaluated from the explicit guess")
        from engine import cas as C
        c = C.CAS()
        c.td and None
        L = C.Lower(c)
        ck.obl += 1
        ok = False
        f0 = first[0]
        # the first evaluated density equals minus the guess, for guess = -g, g > 0
        try:
            L.memo[dn.id] = c.scale(c.var("g"), -1.0)
            c2 = {}
            def choose(n):
                v = [asm.get(n.id), asm.get(X.bnot(n).id)]
                return v[0] if v[0] is not None else (None if v[1] is None else 1 - v[1])
            L.choose = choose
            import engine.facts as F
            L.ranges = F.Ranges({"left": (-1000.0, -1.0000001e-15)})
            dd = c.add(L.get(f0), c.var("g"), -1.0)
            dd, okn = c.normal(dd)
            from engine.report import decide_zero
            ok = okn and not decide_zero(ck, c, dd, 1e-9)
        except C.Unsupported as e:
            ok = False
            why = str(e)
        if ok and not EX.same(d2, d0):
            ck.disch += 1
            ck.witnesses += 1
        else:
            w = guess_replay(S, m)
            if w:
                ck.violation("%s:guess" % m, w, {})
            elif not ck.viol:
                raise Inconclusive("%s.density(): the explicit guess is not the first density evaluated (%s), not reproduced" % (DEC[m], X.show(f0, 5)[:200]))
        w = guess_replay(S, m)
        if ok and w:
            raise Inconclusive("guess proved but: " + w)
        ck.validated += 1
        ck.functions |= S.encoded
    ck.samples += ["domains decided bit-precisely for conditions on the leftover density"]


def verdictf(r):
    ls = X.ileaves(r)
    if ls is None:
        raise Inconclusive("return code is not a choice of constants")
    v = 0.0
    for c, k in ls:
        v = X.fite(c, float(k), v) if type(c) is Node else (float(k) if c else v)
    return v


def guess_replay(S, m):
    """two-phase states: a liquid guess must lead to the liquid root, a vapour guess to the vapour root"""
    for k, t, dl in ((4, 300.0, 11.3), (2, 250.0, 24.3), (3, 250.0, 15.5), (0, 150.0, 22.5)):
        for dg in (dl, dl * 1.02, 0.3, 0.05):
            i = S.N.new(m)
            i.setx([1.0 if j == k else 0.0 for j in range(21)])
            i.t, i.d = t, dg
            p = i.pressure()
            q = S.N.new(m)
            q.setx([1.0 if j == k else 0.0 for j in range(21)])
            q.t, q.d = t, dg
            q.properties()
            if not (p > 0 and q.dp_dd > 0):
                continue
            j = S.N.new(m)
            j.setx([1.0 if n == k else 0.0 for n in range(21)])
            j.t, j.p, j.d = t, p, -dg
            r = j.density(0)
            if r != 0 or abs(j.d - dg) > 1e-5 * dg:
                return "%s.density() from the exact guess d = -%r (pure %s, T = %r, p = %r) gives (%d, %r)" % (
                    DEC[m], dg, COMP[k], t, p, r, j.d)
    # a guess that is ignored: exactly the bits of the default estimate in every state
    states = [(t, p, k) for t in (220.0, 287.3, 391.7) for p in (371.3, 2903.7, 6205.9) for k in (0, 1, 20)]
    for e in range(-29, 6):
        g, same = 10.0 ** (e / 2.0), 0
        for t, p, k in states:
            if abs(g * 8.3145 * t - p) < 0.2 * p:
                continue
            got = []
            for d in (0.0, -g):
                j = S.N.new(m)
                j.setx([0.9 if n == k else (0.1 if n == 3 else 0.0) for n in range(21)])
                j.t, j.p, j.d = t, p, d
                got.append((j.density(0), repr(j.d), repr(j.z)))
            if got[0] != got[1]:
                break
            same += 1
        else:
            if same > 15:
                return "%s.density() ignores the explicit guess d = -%r: in %d states the result is that of the default estimate to the last bit" % (
                    DEC[m], g, same)
    # NaN pressure: the first evaluated state is the guess, and DETAIL stops right after it
    if m == "d":
        for dg in (0.5, 3.0, 12.0):
            i = S.N.new(m)
            i.setx([1.0 / 21] * 21)
            i.t, i.d = 300.0, dg
            i.properties()
            if not (i.p > 1e-6 and i.dp_dd > 1e-6):
                continue
            j = S.N.new(m)
            j.setx([1.0 / 21] * 21)
            j.t, j.p, j.d = 300.0, math.nan, -dg
            j.density(0)
            if abs(j.z - i.z) > 1e-9:
                return "DETAIL.density() with guess -%r evaluates another density first (z = %r, at the guess it is %r)" % (dg, j.z, i.z)
    return None


# ------------------------------------------------------------------------------------------ C15
VIRT = ["set_composition", "set_pressure", "get_pressure", "set_temperature", "get_temperature", "set_density", "get_density",
        "get_properties", "calculate_pressure", "calculate_molar_mass", "calculate_density", "calculate_properties"]


def args_for(S, E, st, m, fn, h):
    a = [h]
    if fn in ("set_pressure", "set_temperature", "set_density"):
        a.append(X.var("arg"))
    if fn == "set_composition":
        e = E.new_obj(st, 8, "heap", "err")
        E.store(st, e, 77, 4)
        a += [comp_obj(S, E, st), e]
    if fn == "calculate_density":
        e = E.new_obj(st, 8, "heap", "err")
        E.store(st, e, 77, 4)
        a.append(e)
    if fn == "get_properties":
        a = [E.new_obj(st, S.N.psize, "heap", "record"), h]
    return a


CHILD = """
import sys, ctypes
sys.path.insert(0, %r)
lib = ctypes.CDLL(%r)
%s
print("alive")
"""


def child(S, code, timeout=20):
    """run native code in a process of its own: (ended normally, signal/exit code)"""
    p = subprocess.run([sys.executable, "-c", CHILD % (HERE, S.N.path, code)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       timeout=timeout, text=True)
    return "alive" in p.stdout, p.returncode, p.stdout


def lifetime(ck, S, m):
    """new and free of one kind of model"""
    N = S.N
    # new: one block of the right size, holding what the Rust constructor gives, nothing else changed
    E = S.engine()
    st = EX.State()
    st, h = single(E.run("@%snew" % PRE[m], [], st), E, "new")
    S.note(E)
    allocs = [t for t in st.tags if t[0] == "alloc"]
    frees = [t for t in st.tags if t[0] == "free"]
    live = set(t[1] for t in allocs) - set(t[1] for t in frees)
    img = S.image(m)
    ck.obl += 1
    bad = None
    if type(h) is not Ptr or h.obj not in live or h.off != 0:
        bad = "the handle is not a live allocation"
    elif st.mem[h.obj].size < N.size[m]:
        bad = "the allocation is too small"
    else:
        q = E.new_obj(st, N.size[m], "heap", "ref")
        st.mem[q.obj].base = dict(img)
        ch = S.changed(E, st, N.size[m], S.snap(st, q), S.snap(st, h))
        df = equal(ck, [(fieldname(S, m, off), b, a) for off, b, a in ch])
        if df:
            bad = "the new model differs from a constructed one in %s" % df[0][0]
    if bad:
        w = new_replay(S, m)
        if w:
            ck.violation("%s:new" % m, w, {})
        else:
            raise Inconclusive("%snew: %s, not reproduced" % (PRE[m], bad))
    else:
        ck.disch += 1
        ck.witnesses += 1
    # a second handle is another block
    ck.obl += 1
    st2, h2 = single(E.run("@%snew" % PRE[m], [], st.fork()), E, "new")
    if type(h2) is Ptr and type(h) is Ptr and h2.obj != h.obj and not S.changed(E, st2, N.size[m], S.snap(st, h), S.snap(st2, h)):
        ck.disch += 1
    else:
        w = new_replay(S, m)
        if w:
            ck.violation("%s:new" % m, w, {})
        else:
            raise Inconclusive("two calls of %snew share memory, not reproduced" % PRE[m])
    # free: releases exactly that block; null: nothing
    ck.obl += 2
    E.events.clear()
    sd = st2.fork()
    if type(h) is Ptr:
        for q in S.statecells(m):
            E.store(sd, Ptr(h.obj, q), X.var("u%d" % q), 8)
    r = E.run("@%sfree" % PRE[m], [h], sd)
    S.note(E)
    good = len(r) == 1 and not E.events
    if good:
        s3 = r[0][0]
        fr = [t[1] for t in s3.tags if t[0] == "free"]
        want = live if type(h) is Ptr else set()
        al2 = set(t[1] for t in s3.tags if t[0] == "alloc") - set(fr)
        good = h.obj in fr and h2.obj not in fr and not (want & al2) and \
            not S.changed(E, s3, N.size[m], S.snap(st2, h2), S.snap(s3, h2))
        ck.obl += 1
        s4, h4 = single(E.run("@%snew" % PRE[m], [], s3.fork()), E, "new")
        df = [1]
        if type(h4) is Ptr and h4.obj in s4.mem and h4.obj != h2.obj and s4.mem[h4.obj].size >= N.size[m]:
            q = E.new_obj(s4, N.size[m], "heap", "ref")
            s4.mem[q.obj].base = dict(img)
            df = S.changed(E, s4, N.size[m], S.snap(s4, q), S.snap(s4, h4))
        if not df or not equal(ck, [(fieldname(S, m, off), b, a) for off, b, a in df] if df != [1] else [(0, 0.0, 1.0)]):
            ck.disch += 1
        else:
            w = reuse_replay(S, m)
            if not w:
                raise Inconclusive("%snew after %sfree does not give a new model, not reproduced" % (PRE[m], PRE[m]))
            ck.violation("%s:reuse" % m, w, {})
            return
    if good:
        ck.disch += 1
    else:
        w = free_replay(S, m)
        if w:
            ck.violation("%s:free" % m, w, {})
        else:
            raise Inconclusive("%sfree: %r, not reproduced" % (PRE[m], [(k, i) for k, i, _ in E.events][:2]))
    E.events.clear()
    r = E.run("@%sfree" % PRE[m], [0], st2.fork())
    if len(r) == 1 and not E.events and not [t for t in r[0][0].tags[len(st2.tags):]] and \
            not S.changed(E, r[0][0], N.size[m], S.snap(st2, h2), S.snap(r[0][0], h2)):
        ck.disch += 1
    else:
        alive, rc, _ = child(S, "lib.%sfree(None)" % PRE[m])
        if not alive:
            ck.violation("%s:free-null" % m, "%sfree(NULL) ends the process (status %d)" % (PRE[m], rc), {})
        else:
            raise Inconclusive("%sfree(NULL) is not a no-op: %r" % (PRE[m], E.events[:1]))


def c15(ck):
    S = Sess(native=("3", "0"))
    N = S.N = S.B.native("3")
    ck.bounds += ["null handle for all 26 functions that take one; two live handles of either kind with every call on one of them",
                  "every argument value and every content of both models", "allocation succeeds"]
    ck.assumptions += ["floating-point arithmetic is uninterpreted", "Rust's allocator returns fresh memory"]
    for m in "dg":
        try:
            lifetime(ck, S, m)
        except EX.Stop as e:
            w = reuse_replay(S, m) or free_replay(S, m) or new_replay(S, m)
            if not w:
                raise Inconclusive("%snew, %sfree: %s" % (PRE[m], PRE[m], e))
            ck.violation("%s:new" % m, w, dict(encoding=str(e)))
            continue
        # null handle: every other function stops before touching memory
        for fn in VIRT:
            E = S.engine()
            st = EX.State()
            r = E.run("@%s%s" % (PRE[m], fn), args_for(S, E, st, m, fn, 0), st)
            S.note(E)
            kinds = sorted({k for k, _, _ in E.events})
            ck.obl += 1
            if not r and kinds == ["panic"]:
                ck.disch += 1
                continue
            code = {"set_composition": "c=(ctypes.c_double*21)(1.0); e=ctypes.c_int(0); f(None,c,ctypes.byref(e))",
                    "calculate_density": "e=ctypes.c_int(0); f(None,ctypes.byref(e))",
                    "get_properties": "\nclass R(ctypes.Structure): _fields_=[('a',ctypes.c_double)]*1\n"
                                      "class Q(ctypes.Structure): _fields_=[('f%%d'%%k,ctypes.c_double) for k in range(%d)]\nf.restype=Q; f(None)" % (N.psize // 8)}.get(fn)
            if code is None:
                code = "f(None, ctypes.c_double(1.0))" if fn.startswith("set_") else "f.restype=ctypes.c_double; f(None)"
            alive, rc, _ = child(S, "f = lib.%s%s\n%s" % (PRE[m], fn, code))
            if alive or rc != -6:
                ck.violation("%s:null" % fn, "%s%s on a null handle %s" % (
                    PRE[m], fn, "returns" if alive else "does not stop the program but faults (status %d)" % rc), dict(function=PRE[m] + fn, events=kinds))
            else:
                raise Inconclusive("%s%s on null: events %r, natively it stops" % (PRE[m], fn, kinds))
        ck.functions |= S.encoded
    # independence: any call on one handle leaves the other handle and all shared memory alone
    shared = []
    for m, k in itertools.product("dg", "dg"):
        for fn in VIRT + ["free"]:
            E = S.engine()
            E.deadline = ck.deadline
            st = EX.State()
            a = sym_model(S, E, st, m)
            b = sym_model(S, E, st, k, "o")
            before, s0 = S.snap(st, b), st.fork()
            if fn == "free":
                E.heap_live[a.obj] = (N.size[m], 8)
            r = E.run("@%s%s" % (PRE[m], fn), args_for(S, E, st, m, fn, a), st)
            S.note(E)
            st2, _ = single(r, E, fn)
            ch = S.changed(E, st2, N.size[k], before, S.snap(st2, b))
            offs = [q for q in S.statecells(k) if q not in set(c[0] for c in ch)]
            frame(ck, list(zip(wordsof(S, E, s0, k, b, offs), wordsof(S, E, st2, k, b, offs))), N.size[k] // 8 - len(ch))
            if ch:
                ck.obl += 1
                w = indep_replay(S, ck, m, k, fn)
                if w:
                    ck.violation("%s:indep" % fn, w, {})
                else:
                    raise Inconclusive("%s%s changes another model" % (PRE[m], fn))
            ck.obl += 1
            if E.global_writes:
                shared.append((m, fn, E.global_writes[0][0]))
            else:
                ck.disch += 1
    ck.functions |= S.encoded
    if shared:
        w = None
        for m, fn, g in shared:
            for k in "dg":
                w = w or indep_replay(S, ck, m, k, fn)
        for m, fn, g in shared:
            w = w or static_replay(S, m, fn, g)
        if w:
            ck.violation("shared-state", w, dict(writes=shared[:5]))
        else:
            raise Inconclusive("calls write shared memory: %r; no influence on another model was reproduced" % (shared[:3],))
    # native validation: two interleaved handles behave like two separate ones
    w = new_replay(S, "d") or new_replay(S, "g") or indep_replay(S, ck, "d", "g", "calculate_properties")
    if w and not ck.viol:
        raise Inconclusive("proved independent, but: " + w)
    ck.validated += 1


def new_replay(S, m):
    N = S.N
    f = getattr(N.lib, PRE[m] + "new")
    f.restype = P8
    a, b = f(), f()
    if not a or not b or abs(a - b) < N.size[m]:
        return "%snew returns %r and %r: not two separate models" % (PRE[m], a, b)
    i = N.new(m)
    u, v = ctypes.string_at(a, N.size[m]), ctypes.string_at(i.a, N.size[m])
    d = worddiff(u, v)
    w = None
    if d:
        w = "%snew leaves %s = %r, the Rust constructor %r" % (PRE[m], fieldname(S, m, d[0]), words(u)[d[0] // 8], words(v)[d[0] // 8])
    return w


def reuse_replay(S, m):
    """a model made after another one was used and freed"""
    N = S.N
    code = """
pre = %r
D = ctypes.c_double
new = getattr(lib, pre + "new"); new.restype = ctypes.c_void_p
ref = ctypes.string_at(new(), %d)
bad = 0
for k in range(4):
    h = ctypes.c_void_p(new())
    bad += ctypes.string_at(h, %d) != ref
    getattr(lib, pre + "set_temperature")(h, D(300.0))
    getattr(lib, pre + "set_density")(h, D(2.0))
    getattr(lib, pre + "set_composition")(h, (D * 21)(1.0), ctypes.byref(ctypes.c_int(0)))
    getattr(lib, pre + "calculate_properties")(h)
    getattr(lib, pre + "free")(h)
print("bad", bad)
""" % (PRE[m], N.size[m], N.size[m])
    alive, rc, out = child(S, code, 60)
    if not alive:
        return "making, using and freeing models with %snew and %sfree ends the process (status %d)" % (PRE[m], PRE[m], rc)
    if "bad 0" not in out:
        return "%snew after a used model was freed gives a model that differs from a new one" % PRE[m]
    return None


def free_replay(S, m):
    """allocate and free many models: memory must be reused, the process must survive, a neighbour must be intact"""
    N = S.N
    code = """
rss = lambda: int(open("/proc/self/statm").read().split()[1]) * 4
new, free = lib.%snew, lib.%sfree
new.restype = ctypes.c_void_p
free.restype = None
keep = new()
ref = ctypes.string_at(keep, %d)
for k in range(50): free(ctypes.c_void_p(new()))
m0 = rss()
for k in range(3000): free(ctypes.c_void_p(new()))
m1 = rss()
print("grow", m1 - m0)
print("same", ctypes.string_at(keep, %d) == ref)
""" % (PRE[m], PRE[m], N.size[m], N.size[m])
    alive, rc, out = child(S, code, 60)
    if not alive:
        return "%snew/%sfree in a loop ends the process (status %d)" % (PRE[m], PRE[m], rc)
    g = [int(l.split()[1]) for l in out.splitlines() if l.startswith("grow")][0]
    if g > 0.5 * 3000 * N.size[m] / 1024:
        return "%sfree does not release the model: 3000 new/free pairs grow the process by %d kB" % (PRE[m], g)
    if "same False" in out:
        return "%sfree changes another model" % PRE[m]
    return None


class Tls(ctypes.Structure):
    _fields_ = [("mod", ctypes.c_ulong), ("off", ctypes.c_ulong)]


class Phdr(ctypes.Structure):
    _fields_ = [("addr", ctypes.c_ulong), ("name", ctypes.c_char_p), ("phdr", ctypes.c_void_p), ("num", ctypes.c_uint16),
                ("adds", ctypes.c_ulonglong), ("subs", ctypes.c_ulonglong), ("modid", ctypes.c_ulong), ("tls", ctypes.c_void_p)]


def static_address(path, kind, value):
    """address, in this thread, of a static of the loaded library"""
    found = []

    @ctypes.CFUNCTYPE(ctypes.c_int, ctypes.POINTER(Phdr), ctypes.c_size_t, ctypes.c_void_p)
    def each(i, n, data):
        if (i[0].name or b"").decode() == path:
            found.append((i[0].addr, i[0].modid))
        return 0
    ctypes.CDLL(None).dl_iterate_phdr(each, None)
    base, mod = found[0]
    if kind != "TLS":
        return base + value
    f = ctypes.CDLL(None)["__tls_get_addr"]
    f.restype = ctypes.c_void_p
    return f(ctypes.byref(Tls(mod, value)))


def static_changes(N, m, fn, kind, value, size):
    """the bytes of a static before and after a call on one model, if they differ"""
    at = static_address(N.path, kind, value)
    class S_:
        pass
    S = S_()
    S.N = N
    for k in range(6):
        i = N.new(m)
        i.setx([[1.0 / 21] * 21, [0.9, 0.1] + [0.0] * 19, [0.0] * 21][k % 3])
        i.t, i.p, i.d = 250.0 + 31 * k, 900.0 + 77 * k, 0.4 + k
        old = ctypes.string_at(at, size)
        call_native(S, m, fn, i)
        new = ctypes.string_at(at, size)
        if old != new:
            return old.hex(), new.hex()
    return None


def static_replay(S, m, fn, name):
    """natively observed change of a static variable by a call on one model"""
    import re
    norm = lambda q: re.sub(r"Cs[0-9A-Za-z]+_", "Cs_", q)
    r = subprocess.run(["readelf", "-sW", S.N.path], stdout=subprocess.PIPE, text=True).stdout
    for l in r.splitlines():
        c = l.split()
        if len(c) >= 8 and c[3] in ("OBJECT", "TLS") and re.sub(r"\.\d+$", "", norm(c[7])) == norm(name.lstrip("@").strip(chr(34))):
            code = """
from checks.iface import *
from engine.build import Native
print("res", static_changes(Native(%r), %r, %r, %r, %d, %d))
""" % (S.N.path, m, fn, c[3], int(c[1], 16), int(c[2], 0))
            alive, rc, out = child(S, code, 60)
            for o in out.splitlines():
                if o.startswith("res (") and alive:
                    return "%s%s on one model changes the shared variable %s: %s" % (PRE[m], fn, c[7], o[4:])
    return None


def indep_replay(S, ck, m, k, fn):
    """the other model's memory and its later results, with and without the call in between"""
    import random
    N = S.N
    sc = []
    for i, desc in states(S, m, random.Random(ck.seed), n=6):
        for j, desc2 in states(S, k, random.Random(ck.seed + 1), n=6):
            sc.append((i, j, desc, desc2))
    for i, j, desc, desc2 in sc:
        ref = N.new(k)
        put(ref, raw(j))
        b0 = raw(j)
        call_native(S, m, fn, i)
        d = worddiff(b0, raw(j))
        if d:
            return "%s%s on one model changes %s of another model" % (PRE[m], fn, fieldname(S, k, d[0]))
    # results in a fresh process with and without the other model's call
    outs = []
    for other in (0, 1):
        code = """
from checks.iface import *
from engine.build import Native
N = Native(%r)
class S_: pass
S = S_(); S.N = N
j = N.new(%r)
j.setx([0.9, 0.02, 0.02, 0.03, 0.02, 0.01] + [0.0] * 15)
j.t, j.p, j.d = 300.0, 5000.0, 1.0
i = N.new(%r)
i.setx([1.0 / 21] * 21)
i.t, i.p, i.d = 250.0, 900.0, 0.4
if %d:
    call_native(S, %r, %r, i)
r = j.density(); j.properties()
if %d:
    i.t = 410.0
    call_native(S, %r, %r, i)
j.t = 333.0
j.properties()
print("res", r, [repr(v) for v in j.outs().values()], j.pressure())
""" % (N.path, k, m, other, m, fn, other, m, fn)
        if fn == "free":
            return None
        alive, rc, out = child(S, code, 60)
        outs.append([l for l in out.splitlines() if l.startswith("res")])
    if outs[0] != outs[1]:
        return "%s%s on one model changes the results of another model: %s instead of %s" % (PRE[m], fn, outs[1][:1], outs[0][:1])
    return None


def call_native(S, m, fn, i):
    N = S.N
    f = getattr(N.lib, PRE[m] + fn, None)
    A = P8(i.a)
    if fn == "free":
        return
    if fn == "set_composition":
        e = ctypes.c_int(0)
        f(A, Lib(N).comp([1.0 / 21] * 21), ctypes.byref(e))
    elif fn == "calculate_density":
        e = ctypes.c_int(0)
        f(A, ctypes.byref(e))
    elif fn == "get_properties":
        class Rec(ctypes.Structure):
            _fields_ = [("f%d" % q, DBL) for q in range(N.psize // 8)]
        f.restype = Rec
        f(A)
    elif fn.startswith("set_"):
        f(A, DBL(7.0))
    else:
        f(A)


# ------------------------------------------------------------------------------------------ C14
MAXPASS = 400


def c14(ck):
    S = Sess(native=("3", "0"))
    N0 = S.B.native("0")
    ck.bounds += ["every bit pattern of t, p, d, the 21 mole fractions (and x[0] of GERG), every mode flag, every content of result and cache cells",
                  "histories: one call on such an arbitrary state, and two and three calls with fresh arbitrary inputs in between"]
    ck.assumptions += ["floating-point arithmetic is uninterpreted: every branch outcome is considered possible",
                       "library calls (exp, ln, powf, ...) return", "stack and heap are large enough"]
    jobs = []
    for m in "dg":
        for op in ("pressure", "properties", "density", "molar_mass", "set"):
            jobs.append((m, (op,), True))
        for h in (("properties", "properties"), ("pressure", "properties"), ("properties", "density"), ("density", "properties"), ("set", "density"),
                  ("density", "density"), ("properties", "pressure", "density")):
            jobs.append((m, h, False))
        for fn in VIRT:
            jobs.append((m, ("ffi:" + fn,), True))
    jobs += [("c", (op,), True) for op in ("sum", "check", "normalize")]
    jobs += [("d", ("new",), True), ("g", ("new",), True)]
    global SS
    SS = S
    for m in "dg":
        S.statecells(m)
    from engine.report import pmap
    res = pmap(ck, c14_one, jobs)
    if ck.problems:
        # an exploration that does not end within the bound: try to reproduce a hang or crash
        w = crash_search(S, ck, None)
        if w:
            ck.violation("crash:%s" % w[0], w[1], w[2])
            return
        raise Inconclusive("; ".join(ck.problems[:2]))
    evs = [e for r in res for e in (r or [])]
    if evs:
        for e in evs[:6]:
            w = crash_search(S, ck, e)
            if w:
                ck.violation("crash:%s" % w[0], w[1], w[2])
                return
        raise Inconclusive("%d events, none reproduced: %r" % (len(evs), [(e["job"], e["kind"], e["info"]) for e in evs[:3]]))
    ck.samples += [str(j[:2]) for j in jobs[::6]]
    w = crash_search(S, ck, None, quick=True)
    if w:
        ck.violation("crash:%s" % w[0], w[1], w[2])
    ck.validated += 1


def c14_one(ck, job):
    m, ops, hav = job
    S = SS
    E = S.engine()
    E.deadline = min(ck.deadline, time.time() + (400 if not ck.thorough else 4000))
    E.max_iter = MAXPASS
    st = EX.State()
    if m == "c":
        o = comp_obj(S, E, st)
        r = E.run("@vh_c_" + ops[0], [o], st)
    elif ops == ("new",):
        o = E.new_obj(st, S.N.size[m], "heap", "model")
        r = E.run("@vh_%s_new" % m, [o], st)
        r += E.run("@%snew" % PRE[m], [], EX.State())
    else:
        o = sym_model(S, E, st, m) if hav else S.model(E, st, m)
        sts = [st]
        for k, op in enumerate(ops):
            nxt = []
            for s in sts:
                S.put(E, s, m, o, "x", [X.var("x%d_%d" % (k, q)) for q in range(21)])
                if m == "g":
                    E.store(s, Ptr(o.obj, S.N.off[m]["x"]), X.var("x_%d" % k), 8)
                for f in "tpd":
                    S.put(E, s, m, o, f, X.var("%s%d" % (f, k)))
                if op == "set":
                    c = comp_obj(S, E, s)
                    r = E.run("@vh_%s_set" % m, [o, c], s)
                elif op.startswith("ffi:"):
                    r = E.run("@%s%s" % (PRE[m], op[4:]), args_for(S, E, s, m, op[4:], o), s)
                else:
                    r = S.call(E, m, op, o, s, *((X.ivar("flag%d" % k),) if op == "density" else ()))
                nxt += [q[0] for q in r]
            sts = nxt
    S.note(E)
    ck.functions |= S.encoded
    ck.obl += 1
    out = []
    q0 = z3.Solver()
    f0 = FP(arith=False)
    q0.add(z3.Or([z3.And([f0.b(c) for c in s.pc] + [z3.BoolVal(True)]) for _, _, s in E.events[:50]] + [z3.BoolVal(False)]))
    if ck.sat(q0, 200) == "unsat":
        E.events[:] = E.events[50:]
    for kind, info, s in E.events:
        # is the path feasible?  arithmetic left open
        f = FP(arith=False)
        q = z3.Solver()
        for c in s.pc:
            q.add(f.b(c))
        if ck.sat(q, 100) == "unsat":
            continue
        mo = q.model()
        vals = {n: f.model(mo, n) for n in f.vars}
        for k in range(len(ops)):
            w = mo.eval(z3.BitVec("flag%d" % k, 32), model_completion=True).as_long()
            vals["flag%d" % k] = w - (w >> 31 << 32)
        out.append(dict(job=str(job), m=m, ops=ops, kind=kind, info=str(info)[:200], vals={k: repr(v) for k, v in vals.items()}))
        if len(out) > 4:
            break
    if not out:
        ck.disch += 1
    ck.witnesses += 1
    ck.extra["blocks"] = ck.extra.get("blocks", 0) + E.stats["blocks"]
    ck.extra["branch_forks"] = ck.extra.get("branch_forks", 0) + E.stats["forks"]
    return out


CRASH = """
import random, math, signal
from engine.build import Native
from checks.comp import Lib
N = Native(%(lib)r)
L = Lib(N)
rng = random.Random(%(seed)d)
vals = %(vals)r
def val(s):
    return float(s) if s not in ("nan", "inf", "-inf") else {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[s]
SP = [0.0, -0.0, math.nan, math.inf, -math.inf, -1.0, 1e-20, -1e-20, 5e-324, 1e300, -1e300, 1e-15, 1.0]
comps = [[1.0/21]*21, [0.0]*21, [math.nan]*21, [-1.0]*21, [1e308]*21] + [[1.0 if j == k else 0.0 for j in range(21)] for k in range(21)]
def comp():
    r = rng.random()
    if r < 0.5: return rng.choice(comps)
    c = [rng.random() if rng.random() < 0.4 else 0.0 for _ in range(21)]
    if rng.random() < 0.3: c[rng.randrange(21)] = rng.choice(SP)
    s = sum(c)
    return [v / s for v in c] if s > 0 and rng.random() < 0.8 else c
def num(base):
    return rng.choice(base) if rng.random() < 0.7 else rng.choice(SP)
n = 0
def step(m, i, log, forced=None):
    op = forced or rng.choice(["pressure", "properties", "density", "molar_mass", "set"])
    if not log or rng.random() < 0.8:
        c = comp(); i.setx(c)
        i.t = num([250.0, 300.0, 77.0, 1000.0, 100.0]); i.p = num([10.0, 5000.0, 50000.0, 1e6]); i.d = num([0.0, 1.0, 10.0, -3.0])
    flag = rng.choice([0, 0, 0, 0, 1, 1, 2, 2, -1, 7, 2**31 - 1, -2**31])
    log.append((op, i.t, i.p, i.d, flag, [(k, v) for k, v in enumerate(i.getx()) if v != 0]))
    print("last", m, log[-3:], flush=True)
    signal.alarm(10)
    if op == "density": i.density(flag)
    elif op == "set": getattr(N.lib, "vh_%%s_set" %% m)(i.a and __import__("ctypes").c_void_p(i.a), L.comp(comp()))
    else: getattr(i, op)()
    signal.alarm(0)
if vals:
    m = %(m)r
    if m in "dg":
        i = N.new(m)
        i.setx([1.0/21]*21); i.t = 300.0; i.p = 5000.0; i.d = 1.0
        import re
        for k, op in enumerate(%(ops)r):
            for n_, s_ in vals.items():
                v = val(s_)
                q = re.match(r"x%%d_(\\d+)$" %% k, n_)
                if q: i.at(N.off[m]["x"] + 8*int(q.group(1)) + (8 if m == "g" else 0)).value = v
                for f in "tpd":
                    if n_ == "%%s%%d" %% (f, k): setattr(i, f, v)
            print("last", m, op, vals, flush=True)
            signal.alarm(10)
            if op == "density": [i.density(f) for f in (int(vals.get("flag%%d" %% k, 0)), 0, 1, 2, -1, 3, 2**31 - 1, -2**31)]
            elif op in ("pressure", "properties", "molar_mass"): getattr(i, op)()
            signal.alarm(0)
    elif m == "c":
        c = [0.0]*21
        for n_, s_ in vals.items():
            if n_[0] == "c" and n_[1:].isdigit(): c[int(n_[1:])] = val(s_)
        print("last", "composition", c, flush=True)
        L.check(c); L.normalize(c); L.sum(c)
for k in range(%(n)d):
    m = %(m)r if %(m)r in ("d", "g") else "dg"[k %% 2]
    i = N.new(m)
    log = []
    for s in range(rng.randint(1, 3)):
        step(m, i, log)
for k in range(50):
    c = comp(); print("last composition", c, flush=True); L.check(c); L.normalize(c); L.sum(c)
"""


def crash_search(S, ck, e, quick=False):
    """native confirmation (debug build, overflow checks on), in a process of its own"""
    e = e or dict(m="x", ops=(), vals={})
    code = CRASH % dict(lib=S.B.native("0").path, seed=ck.seed, vals=e["vals"], m=e["m"], ops=tuple(e["ops"]), n=60 if quick else 1500)
    p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r)\n%s\nprint('alive')" % (HERE, code)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.stdout.rstrip().endswith("alive"):
        return None
    last = [l for l in p.stdout.splitlines() if l.startswith("last")][-1:]
    if p.returncode > 0 or not last:
        raise Inconclusive("replay script failed: %s" % p.stderr[-400:])
    how = "does not return within 10 s" if p.returncode == -14 else "ends the process with signal %d" % -p.returncode
    msg = [l for l in p.stderr.splitlines() if "panicked" in l or "index" in l or "overflow" in l][:2]
    return ("hang" if p.returncode == -14 else "panic", "call %s %s %s" % (last[0][5:900], how, " ".join(msg)), dict(event={k: e[k] for k in e if k != "vals"}, last=last))
