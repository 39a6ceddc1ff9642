"""C26: triangulation."""
import random

import front
import genlib
import terms
from front import AnalysisError
from lens import V, check_calls
from terms import MPInterp, diff

PRE = '#include <stdbool.h>\n#include <stddef.h>\n#include "mrcal.h"\n#include "triangulation.h"\n'
METHODS = ["geometric", "lindstrom", "leecivera_l1", "leecivera_linf", "leecivera_mid2", "leecivera_wmid2"]


def wrapper(n, method, g0, g1, gt):
    third = "R" if method == "lindstrom" else "t"
    return (n, "extern double {n}_m[],{n}_d0[],{n}_d1[],{n}_dt[],{n}_a[],{n}_b[],{n}_{r}[];\nvoid {n}(void){{ mrcal_point3_t m=mrcal_triangulate_{k}("
            "{g0},{g1},{gt},(const mrcal_point3_t*){n}_a,(const mrcal_point3_t*){n}_b,(const mrcal_point3_t*){n}_{r});"
            "{n}_m[0]=m.x;{n}_m[1]=m.y;{n}_m[2]=m.z;}}\n".format(
                n=n, k=method, r=third, g0="(mrcal_point3_t*)%s_d0" % n if g0 else "NULL", g1="(mrcal_point3_t*)%s_d1" % n if g1 else "NULL",
                gt="(mrcal_point3_t*)%s_dt" % n if gt else "NULL"))


# ---------------------------------------------------------------- small vector algebra on mpmath numbers
def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def add(a, b, k=1):
    return [x + k * y for x, y in zip(a, b)]


def mul(a, k):
    return [x * k for x in a]


def rot(mp, r):
    """Rotation matrix of a Rodrigues vector"""
    th = mp.sqrt(dot(r, r))
    k = mul(r, 1 / th)
    c, s = mp.cos(th), mp.sin(th)
    K = [[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]
    return [[(c if i == j else 0) + s * K[i][j] + (1 - c) * k[i] * k[j] for j in range(3)] for i in range(3)]


def meet(v0, v1, t):
    """The intersection of two rays that do intersect"""
    n = cross(v0, v1)
    k0 = dot(cross(t, v1), n) / dot(n, n)
    return mul(v0, k0)


def ref_geometric(mp, v0, v1, t):
    # stationary point of |k0 v0 - t - k1 v1|^2, by Cramer's rule
    a, b, c, d, e = dot(v0, v0), dot(v0, v1), dot(v1, v1), dot(v0, t), dot(v1, t)
    D = a * c - b * b
    k0, k1 = (d * c - b * e) / D, (b * d - a * e) / D
    return mul(add(add(mul(v0, k0), mul(v1, k1)), t), mp.mpf(1) / 2)


def unit(mp, v):
    return mul(v, 1 / mp.sqrt(dot(v, v)))


def offplane(v, n):
    return add(v, n, -dot(v, n) / dot(n, n))


def ref_leecivera_l1(mp, v0, v1, t):
    u0, u1 = unit(mp, v0), unit(mp, v1)
    c0, c1 = cross(u0, t), cross(u1, t)
    if dot(c0, c0) < dot(c1, c1):
        v0 = offplane(v0, c1)
    else:
        v1 = offplane(v1, c0)
    return meet(v0, v1, t)


def ref_leecivera_linf(mp, v0, v1, t):
    u0, u1 = unit(mp, v0), unit(mp, v1)
    na, nb = cross(add(u0, u1), t), cross(add(u0, u1, -1), t)
    n = na if dot(na, na) > dot(nb, nb) else nb
    return meet(offplane(u0, n), offplane(u1, n), t)


def lambdas(mp, u0, u1, t):
    n = cross(u0, u1)
    p = mp.sqrt(dot(n, n))
    a, b = cross(u1, t), cross(u0, t)
    return mp.sqrt(dot(a, a)) / p, mp.sqrt(dot(b, b)) / p


def ref_leecivera_mid2(mp, v0, v1, t):
    u0, u1 = unit(mp, v0), unit(mp, v1)
    l0, l1 = lambdas(mp, u0, u1, t)
    return mul(add(mul(u0, l0), add(t, mul(u1, l1))), mp.mpf(1) / 2)


def ref_leecivera_wmid2(mp, v0, v1, t):
    u0, u1 = unit(mp, v0), unit(mp, v1)
    l0, l1 = lambdas(mp, u0, u1, t)
    w0, w1 = 1 / l0, 1 / l1
    return mul(add(mul(mul(u0, l0), w0), mul(add(t, mul(u1, l1)), w1)), 1 / (w0 + w1))


def ref_lindstrom(mp, v0, v1, R, t):
    """Listing 3 (niter2) of the paper"""
    T = [[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]]
    E = [[sum(T[i][k] * R[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    x, y = mul(v0, 1 / v0[2]), mul(v1, 1 / v1[2])
    Et = [[E[i][j] for j in range(2)] for i in range(2)]
    n = [dot(E[i], y) for i in range(2)]
    nn = [sum(E[i][j] * x[i] for i in range(3)) for j in range(2)]
    a = sum(n[i] * Et[i][j] * nn[j] for i in range(2) for j in range(2))
    b = (dot(n, n) + dot(nn, nn)) / 2
    c = sum(x[i] * E[i][j] * y[j] for i in range(3) for j in range(3))
    d = mp.sqrt(b * b - a * c)
    l = c / (b + d)
    dx, dy = mul(n, l), mul(nn, l)
    n = [n[i] - sum(Et[i][j] * dy[j] for j in range(2)) for i in range(2)]
    nn = [nn[j] - sum(Et[i][j] * dx[i] for i in range(2)) for j in range(2)]
    l = l * 2 * d / (dot(n, n) + dot(nn, nn))
    x = [x[0] - l * n[0], x[1] - l * n[1], mp.mpf(1)]
    y = [y[0] - l * nn[0], y[1] - l * nn[1], mp.mpf(1)]
    return x, [dot(R[i], y) for i in range(3)]


def geometries(mp, n, seed):
    """(kind, v0, v1, t, r, p): exact (rays meet at p), skew (they nearly do), bad (p behind a camera or divergent rays)"""
    rng = random.Random(seed)
    F = mp.mpf
    out = []
    for k in range(n):
        kind = ("exact", "skew", "behind", "skew", "exact", "diverge")[k % 6]
        p = [F(rng.uniform(-3, 3)), F(rng.uniform(-3, 3)), F(rng.uniform(4, 9))]
        ax = (k // 2) % 3
        t = [F(rng.uniform(-0.4, 0.4)) for _ in range(3)]
        t[ax] = F(rng.choice((-1, 1)) * rng.uniform(1, 2))
        r = [F(rng.uniform(-0.2, 0.2)) for _ in range(3)]
        if kind == "behind":
            p[2] = -p[2]
        v0 = mul(p, F(rng.uniform(0.1, 0.9)))
        v1 = mul(add(p, t, -1), F(rng.uniform(0.1, 0.9)))
        if kind == "behind":
            v0, v1 = mul(v0, -1), mul(v1, -1)
        if kind == "skew":
            v0 = [x + F(rng.uniform(-0.02, 0.02)) for x in v0]
            v1 = [x + F(rng.uniform(-0.02, 0.02)) for x in v1]
        if kind == "diverge":
            p = [F(rng.uniform(-0.2, 0.2)), F(rng.uniform(-0.2, 0.2)), F(5)]
            t = [F(rng.choice((-1, 1)) * 2), F(rng.uniform(-0.1, 0.1)), F(rng.uniform(-0.1, 0.1))]
            v0, v1 = list(p), list(p)
            v0[0] -= t[0] / 4
            v1[0] += t[0] / 4
        out.append((kind, v0, v1, t, r, p))
    return out


def assign(mp, method, v0, v1, t, R):
    """Interpretation of the wrapper's inputs; lindstrom takes camera-local vectors"""
    a = {("a", i): v0[i] for i in range(3)}
    if method == "lindstrom":
        b = [sum(R[j][i] * v1[j] for j in range(3)) for i in range(3)]
        for i in range(3):
            for j in range(3):
                a[("R", 3 * i + j)] = R[i][j]
            a[("R", 9 + i)] = t[i]
    else:
        b = v1
        for i in range(3):
            a[("t", i)] = t[i]
    for i in range(3):
        a[("b", i)] = b[i]
    return a, b


def close(a, b, tol=1e-20):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def c26(ctx):
    ctx.rule("triangulation: value numbers of the result and gradients of each method, interpreted on every branch region: exactly "
             "meeting rays give their intersection; skew rays give the method's published formula; rays that meet behind a camera or diverge "
             "give 0; lengths of the input vectors do not matter; each gradient is the formal derivative of the result; omitting gradients changes nothing")
    ws = []
    for m in METHODS:
        for c, g in (("a", (1, 1, 1)), ("e", (0, 0, 0)), ("p", (1, 0, 0)), ("q", (0, 1, 0)), ("r", (0, 0, 1))):
            ws.append(wrapper("w_%s_%s" % (m, c), m, *g))
    for c, g in (("a", 1), ("e", 0)):
        n = "err_" + c
        ws.append((n, "double _mrcal_triangulated_error(mrcal_point3_t*,mrcal_point3_t*,const mrcal_point3_t*,const mrcal_point3_t*,const mrcal_point3_t*);\n"
                   "extern double {n}_m[],{n}_d1[],{n}_dt[],{n}_a[],{n}_b[],{n}_t[];\nvoid {n}(void){{ {n}_m[0]=_mrcal_triangulated_error({g1},{gt},"
                   "(const mrcal_point3_t*){n}_a,(const mrcal_point3_t*){n}_b,(const mrcal_point3_t*){n}_t);}}\n".format(
                       n=n, g1="(mrcal_point3_t*)%s_d1" % n if g else "NULL", gt="(mrcal_point3_t*)%s_dt" % n if g else "NULL")))
    F = genlib.build("c26", ws, ["triangulation.cc"], PRE, nch=8)
    ctx.parallel(_one, [(m, F, c) for c in range(NCHUNK) for m in ["lindstrom", "error"] + [x for x in METHODS if x != "lindstrom"]])
    ctx.require("methods", 7 * NCHUNK)
    ctx.require("gradients", 300)
    ctx.assumptions.append("Real arithmetic; non-degenerate geometry (rays not parallel, not along the baseline).")


NCHUNK = 3


def _one(ctx, item):
    m, F, chunk = item
    terms.reset()
    if m == "error":
        return _error(ctx, F, chunk)
    S = {}
    third, n3 = ("R", 12) if m == "lindstrom" else ("t", 3)
    for c in "aepqr":
        S[c] = genlib.Sum(F["w_%s_%s" % (m, c)], "w_%s_%s_" % (m, c))
        check_calls(ctx, "C26:" + m, m, S[c])
    ctx.count("methods")
    out = S["a"].out("m", 3)
    if any(o is None for o in out):
        ctx.violation("C26:%s:out" % m, "%s: the result is not written on every path" % m)
        return
    import mpmath as mp
    mp.mp.dps = 60
    G = geometries(mp, (12 if m == "lindstrom" else 24) * (3 if ctx.thorough else 1), 11 + chunk)
    done = {}
    D = {}

    def d(i, src, j):
        if (i, src, j) not in D:
            D[i, src, j] = diff(out[i], V((src, j)))
        return D[i, src, j]
    for k, (kind, v0, v1, t, r, p) in enumerate(G):
        R = rot(mp, r)
        a, vb = assign(mp, m, v0, v1, t, R)
        I = MPInterp(3, a)
        got = [I.ev(o) for o in out]
        ctx.count("interpretations")
        done[kind] = done.get(kind, 0) + 1
        if kind == "exact":
            want, w = p, "the point where the rays meet"
        elif kind in ("behind", "diverge"):
            want, w = [0, 0, 0], "0 for rays that %s" % ("meet behind the cameras" if kind == "behind" else "diverge")
        elif m == "lindstrom":
            want, w = meet(*ref_lindstrom(mp, v0, vb, R, t), t), "the published formula"
        else:
            want, w = globals()["ref_" + m](mp, v0, v1, t), "the published formula"
        # Lindstrom's corrected rays meet up to the residual of his 2nd iteration only
        tol = 1e-9 if (m, kind) == ("lindstrom", "skew") else 1e-20
        bad = [i for i in range(3) if not close(got[i], want[i], tol)]
        if bad:
            ctx.violation("C26:%s:%s" % (m, kind), "mrcal_triangulate_%s: result[%d] is %s, expected %s (%s)" % (
                m, bad[0], mp.nstr(got[bad[0]], 8), mp.nstr(mp.mpf(want[bad[0]]), 8), w))
            continue
        # lengths do not matter
        a2, _ = assign(mp, m, mul(v0, mp.mpf(3)), mul(v1, mp.mpf(1) / 7), t, R)
        I2 = MPInterp(3, a2)
        for i in range(3):
            if not close(I2.ev(out[i]), got[i]):
                ctx.violation("C26:%s:scale" % m, "mrcal_triangulate_%s: result[%d] depends on the lengths of the observation vectors" % (m, i))
        # leaving out outputs
        for c in "epqr":
            for i in range(3):
                o = S[c].at("m", i)
                if o is None or not close(I.ev(o), got[i]):
                    ctx.violation("C26:%s:subset" % m, "mrcal_triangulate_%s: result[%d] changes if gradients are not requested" % (m, i))
        if kind in ("behind", "diverge"):
            continue
        for name, src, n in (("d0", "a", 3), ("d1", "b", 3), ("dt", third, n3)):
            one = S[{"d0": "p", "d1": "q", "dt": "r"}[name]]
            for i in range(3):
                for j in range(n):
                    g = S["a"].at(name, n * i + j)
                    g1 = one.at(name, n * i + j)
                    ctx.count("gradients")
                    if g is None and S["a"].ev.retmem.get((("global", S["a"].pre + name), terms.P(8 * (n * i + j)))) is None:
                        ctx.violation("C26:%s:gradient" % m, "mrcal_triangulate_%s: d result[%d]/d %s[%d] is not written" % (m, i, src, j))
                        continue
                    x, y = I.ev(g), I.ev(d(i, src, j))
                    if not close(x, y):
                        ctx.violation("C26:%s:gradient" % m, "mrcal_triangulate_%s: reported d result[%d]/d %s[%d] = %s, the derivative is %s" % (
                            m, i, src, j, mp.nstr(x, 8), mp.nstr(y, 8)))
                    if g1 is None or not close(I.ev(g1), x):
                        ctx.violation("C26:%s:gradient-alone" % m, "mrcal_triangulate_%s: d result[%d]/d %s[%d] changes if it alone is requested" % (m, i, src, j))
        for name, n in (("d0", 9), ("d1", 9), ("dt", 3 * n3)):
            for off, size, acc in S["a"].written(name):
                c = off.const()
                if c is None or not 0 <= c <= 8 * n - size:
                    ctx.violation("C26:%s:bounds" % m, "mrcal_triangulate_%s: a gradient is written out of bounds (%s)" % (m, acc.inst.where()))
    for kind in ("exact", "skew", "behind", "diverge"):
        if not done.get(kind):
            raise AnalysisError("no %s geometry" % kind)


def _error(ctx, F, chunk):
    import mpmath as mp
    mp.mp.dps = 60
    S = {}
    for c in "ae":
        S[c] = genlib.Sum(F["err_" + c], "err_%s_" % c)
        check_calls(ctx, "C26:error", "triangulated_error", S[c])
    ctx.count("methods")
    e = S["a"].at("m", 0)
    D = {(src, j): diff(e, V((src, j))) for src in "bt" for j in range(3)}
    for kind, v0, v1, t, r, p in geometries(mp, 24 * (3 if ctx.thorough else 1), 12 + chunk):
        a, _ = assign(mp, "x", v0, v1, t, None)
        I = MPInterp(3, a)
        got = I.ev(e)
        o = S["e"].at("m", 0)
        if o is None or not close(I.ev(o), got):
            ctx.violation("C26:error:subset", "_mrcal_triangulated_error: the error changes if gradients are not requested")
        if kind == "skew":
            w = ref_leecivera_mid2(mp, v0, v1, t)
            c = dot(v0, w) / mp.sqrt(dot(v0, v0) * dot(w, w))
            want = 2 * mp.sqrt(2 - 2 * c)
            if not close(got, want):
                ctx.violation("C26:error:value", "_mrcal_triangulated_error: %s for convergent rays, expected twice the angle to the mid2 point, %s" % (mp.nstr(got, 8), mp.nstr(want, 8)))
        if kind == "diverge" and not got > mp.mpf("0.1"):
            ctx.violation("C26:error:divergent", "_mrcal_triangulated_error: divergent rays are not penalised (%s)" % mp.nstr(got, 8))
        if kind == "exact":
            if abs(got) > 1e-8:
                ctx.violation("C26:error:exact", "_mrcal_triangulated_error: %s for rays that meet exactly" % mp.nstr(got, 8))
            continue
        for name, src in (("d1", "b"), ("dt", "t")):
            for j in range(3):
                g = S["a"].at(name, j)
                ctx.count("gradients")
                if g is None:
                    ctx.violation("C26:error:gradient", "_mrcal_triangulated_error: d error/d %s[%d] is not written" % (src, j))
                    continue
                x, y = I.ev(g), I.ev(D[src, j])
                if not close(x, y):
                    ctx.violation("C26:error:gradient", "_mrcal_triangulated_error: reported d error/d %s[%d] = %s, the derivative is %s (%s rays)" % (
                        src, j, mp.nstr(x, 8), mp.nstr(y, 8), kind))
