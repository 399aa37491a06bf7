"""The equations of state as reference: Helmholtz energy per mole of DETAIL and GERG-2008, built as CAS polynomials from
the parameter tables in /verif/spec.  Only the energy is written down; pressure, entropy, ... are its derivatives."""
import json, os, math
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RDET, RGERG, RSOLD = 8.31451, 8.314472, 8.31451
_cache = {}


def table(n):
    if n not in _cache:
        _cache[n] = json.load(open(os.path.join(HERE, "spec", n + ".json")))
    return _cache[n]


def lin(c, terms):
    R = {}
    for k, P in terms:
        c.add_into(R, P, k)
    return R


def pr(c, *Ps):
    R = Ps[0]
    for P in Ps[1:]:
        R = c.mul(R, P)
    return R


def hyper(c, th, T):
    """ln sinh(th/T), ln cosh(th/T)"""
    a = c.scale(c.power(T, -1.0), th)
    e, i = c.exp(a), c.exp(c.scale(a, -1.0))
    return c.log(c.scale(c.add(e, i, -1.0), 0.5)), c.log(c.scale(c.add(e, i), 0.5))


def ideal(c, x, T, D, n0, th, R, sinh, cosh):
    """R T sum x_i [ln x_i + ln D + n1 + n2/T - n3 ln T + sum n_k ln hyp]; n0[i] = (n1, n2, n3, {k: n_k})"""
    A = {}
    lnT, lnD, iT = c.log(T), c.log(D), c.power(T, -1.0)
    for i in x:
        n1, n2, n3, nk = n0(i)
        s = lin(c, [(1, c.log(x[i])), (1, lnD), (1, c.const(n1)), (n2, iT), (-n3, lnT)])
        for k, n in nk.items():
            if th[i][k] > 0 and n != 0:
                ls, lc = hyper(c, th[i][k], T)
                if k in sinh:
                    c.add_into(s, ls, n)
                else:
                    c.add_into(s, lc, -n)
        c.add_into(A, c.mul(x[i], s))
    return c.scale(c.mul(A, T), R)


def detail(c, x, T, D):
    """x: {component index 0..20: polynomial} of the components present"""
    S = table("detail")
    lnd0 = math.log(101.325 / RDET / 298.15)
    A0 = ideal(c, x, T, D, lambda i: (S["N0I"][i][0] - lnd0, S["N0I"][i][1], S["N0I"][i][2] - 1.0,
                                      {k: S["N0I"][i][k] for k in (3, 4, 5, 6)}), S["TH0I"], RDET, (3, 5), (4, 6))
    idx = sorted(x)
    E, K, G, Q, F, SI, W = (S[k] for k in ("EI", "KI", "GI", "QI", "FI", "SI", "WI"))
    k1, u1, g1, q1, f1 = {}, {}, {}, {}, {}
    for i in idx:
        c.add_into(k1, x[i], K[i] ** 2.5)
        c.add_into(u1, x[i], E[i] ** 2.5)
        c.add_into(g1, x[i], G[i])
        c.add_into(q1, x[i], Q[i])
        c.add_into(f1, c.mul(x[i], x[i]), F[i])
    k5, u5 = c.mul(k1, k1), c.mul(u1, u1)
    B = [{} for _ in range(18)]
    for a, i in enumerate(idx):
        for j in idx[a:]:
            xx = c.mul(x[i], x[j])
            two = 1.0 if i == j else 2.0
            if i != j:
                c.add_into(k5, xx, 2 * (S["KIJ"][i][j] ** 5 - 1) * (K[i] * K[j]) ** 2.5)
                c.add_into(u5, xx, 2 * (S["UIJ"][i][j] ** 5 - 1) * (E[i] * E[j]) ** 2.5)
                c.add_into(g1, xx, 2 * (S["GIJ"][i][j] - 1) * (G[i] + G[j]) / 2)
            e = S["EIJ"][i][j] * math.sqrt(E[i] * E[j])
            for n in range(18):
                b = S["AN"][n] * e ** S["UN"][n] * (K[i] * K[j]) ** 1.5
                if S["GN"][n]:
                    b *= S["GIJ"][i][j] * (G[i] + G[j]) / 2
                if S["QN"][n]:
                    b *= Q[i] * Q[j]
                if S["FN"][n]:
                    b *= math.sqrt(F[i] * F[j])
                if S["SN"][n]:
                    b *= SI[i] * SI[j]
                if S["WN"][n]:
                    b *= W[i] * W[j]
                c.add_into(B[n], xx, two * b)
    K3 = c.power(k5, 0.6)
    U = c.power(u5, 0.2)
    dr = c.mul(K3, D)
    q2 = c.mul(q1, q1)
    al = {}
    for n in range(58):
        Tu = c.power(T, -S["UN"][n])
        if n < 18:
            c.add_into(al, pr(c, B[n], c.mul(D, Tu)))
        if n >= 12:
            C = c.scale(c.power(U, S["UN"][n]), S["AN"][n])
            if S["GN"][n]:
                C = c.mul(C, g1)
            if S["QN"][n]:
                C = c.mul(C, q2)
            if S["FN"][n]:
                C = c.mul(C, f1)
            if not C:
                continue
            CT = c.mul(C, Tu)
            if n < 18:
                c.add_into(al, c.mul(CT, dr), -1.0)
            t = c.mul(CT, c.power(dr, S["BN"][n]))
            if S["KN"][n]:
                t = c.mul(t, c.exp(c.scale(c.power(dr, S["KN"][n]), -1.0)))
            c.add_into(al, t)
    return A0, c.scale(c.mul(al, T), RDET), RDET


def gerg(c, x, T, D):
    """x: {component index 1..21: polynomial} of the components present"""
    S = table("gerg")
    U = S["setup"]
    rsr, t0 = RSOLD / RGERG, 298.15
    lnd0 = math.log(101.325 / RGERG / t0)

    def n0(i):
        n = U["n0i"][i]
        return (rsr * n[1] - lnd0, rsr * (n[2] + t0) - t0, rsr * (n[3] - 1.0), {k: rsr * n[k] for k in (4, 5, 6, 7)})
    A0 = ideal(c, x, T, D, n0, S["TH0I"], RGERG, (4, 6), (5, 7))
    idx = sorted(x)
    DC, TC = S["DC"], S["TC"]
    vr, tr = {}, {}
    for a, i in enumerate(idx):
        c.add_into(vr, c.mul(x[i], x[i]), 1.0 / DC[i])
        c.add_into(tr, c.mul(x[i], x[i]), TC[i])
        for j in idx[a + 1:]:
            n = c.mul(c.mul(x[i], x[j]), c.add(x[i], x[j]))
            bv, bt = U["bvij"][i][j], U["btij"][i][j]
            v = 0.125 * (DC[i] ** (-1 / 3) + DC[j] ** (-1 / 3)) ** 3
            iv = c.power(lin(c, [(bv * bv, x[i]), (1.0, x[j])]), -1.0)
            it = c.power(lin(c, [(bt * bt, x[i]), (1.0, x[j])]), -1.0)
            c.add_into(vr, c.mul(n, iv), 2 * bv * U["gvij"][i][j] * v)
            c.add_into(tr, c.mul(n, it), 2 * bt * U["gtij"][i][j] * math.sqrt(TC[i] * TC[j]))
    de = c.mul(D, c.atomise(vr))
    ta = c.mul(c.atomise(tr), c.power(T, -1.0))
    al = {}
    pt = {}

    def tp(t):
        if t not in pt:
            pt[t] = c.power(ta, t)
        return pt[t]
    for i in idx:
        row = 5 if (i > 4 and i not in (15, 18, 20)) else i
        for k in range(1, S["KPOL"][i] + S["KEXP"][i] + 1):
            t = c.scale(pr(c, x[i], c.power(de, U["doik"][i][k]), tp(U["toik"][row][k])), S["NOIK"][i][k])
            if k > S["KPOL"][i]:
                t = c.mul(t, c.exp(c.scale(c.power(de, U["coik"][i][k]), -1.0)))
            c.add_into(al, t)
    for a, i in enumerate(idx):
        for j in idx[a + 1:]:
            mn = S["MNUMB"][i][j]
            if mn <= 0 or S["FIJ"][i][j] == 0:
                continue
            xx = c.scale(c.mul(x[i], x[j]), S["FIJ"][i][j])
            for k in range(1, S["KPOLIJ"][mn] + S["KEXPIJ"][mn] + 1):
                t = c.scale(pr(c, xx, c.power(de, U["dijk"][mn][k]), tp(U["tijk"][mn][k])), U["nijk"][mn][k])
                if k > S["KPOLIJ"][mn]:
                    et, ep, be, ga = (U[q][mn][k] for q in ("cijk", "eijk", "bijk", "gijk"))
                    m2 = c.mul(c.add(de, c.const(-ep)), c.add(de, c.const(-ep)))
                    t = c.mul(t, c.exp(lin(c, [(-et, m2), (-be, de), (be * ga, c.const(1.0))])))
                c.add_into(al, t)
    return A0, c.scale(c.mul(al, T), RGERG), RGERG


def derive(c, A0, Ar, R, T, D, d="d", t="t"):
    """properties that follow linearly from the energy A0 + Ar; the ideal-gas part of the pressure is R T d"""
    A = c.add(A0, Ar)
    D2 = c.mul(D, D)
    rt = c.scale(T, R)
    p = c.add(c.mul(rt, D), c.mul(D2, c.diff(Ar, d)))
    s = c.scale(c.diff(A, t), -1.0)
    u = c.add(A, c.mul(T, s))
    pd = c.mul(p, c.power(D, -1.0)) if D else rt
    return dict(a=A, p=p, z=c.mul(pd, c.power(rt, -1.0)), s=s, u=u, h=c.add(u, pd), g=c.add(A, pd),
                cv=c.mul(T, c.diff(s, t)))


FN = {"d": detail, "g": gerg}
