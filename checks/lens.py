"""C05, C24, C25: projection functions, their gradients, documented formulas, and inverses."""
import random

import front
import genlib
import terms
from front import AnalysisError
from terms import BDD, MPInterp, ONE, P, Poly, ZERO, atom, atom_key, atoms_of, diff, fn, inv, proves_zero, show, sqrt, var

PRE = '#include <stdbool.h>\n#include <stddef.h>\n#include "mrcal.h"\n'

# name: (label, parameters, configuration)
MODELS = [
    ("PINHOLE", "PINHOLE", 4, ""),
    ("STEREOGRAPHIC", "STEREOGRAPHIC", 4, ""),
    ("LONLAT", "LONLAT", 4, ""),
    ("LATLON", "LATLON", 4, ""),
    ("OPENCV4", "OPENCV4", 8, ""),
    ("OPENCV5", "OPENCV5", 9, ""),
    ("OPENCV8", "OPENCV8", 12, ""),
    ("OPENCV12", "OPENCV12", 16, ""),
    ("CAHVOR", "CAHVOR", 9, ""),
    ("CAHVORE_0", "CAHVORE", 12, ".LENSMODEL_CAHVORE__config={.linearity=0.0}"),
    ("CAHVORE_p", "CAHVORE", 12, ".LENSMODEL_CAHVORE__config={.linearity=0.4}"),
    ("CAHVORE_n", "CAHVORE", 12, ".LENSMODEL_CAHVORE__config={.linearity=-0.4}"),
    ("SPLINED_2", "SPLINED_STEREOGRAPHIC", 4 + 2 * 11 * 9, ".LENSMODEL_SPLINED_STEREOGRAPHIC__config={.order=2,.Nx=11,.Ny=9,.fov_x_deg=120}"),
    ("SPLINED_3", "SPLINED_STEREOGRAPHIC", 4 + 2 * 11 * 9, ".LENSMODEL_SPLINED_STEREOGRAPHIC__config={.order=3,.Nx=11,.Ny=9,.fov_x_deg=120}"),
]
SIMPLE = ["pinhole", "stereographic", "lonlat", "latlon"]


def num(model):
    return [m for m in MODELS if m[0] == model][0][2]


def lens_points(N=1, n=4, seed=3):
    """Realistic points: fx,fy of ~1000, mild distortion, points in front of the camera"""
    rng = random.Random(seed)
    out = []
    for k in range(n):
        a = {}
        for i in range(N):
            a[("p", 3 * i)] = rng.uniform(-0.8, 0.8)
            a[("p", 3 * i + 1)] = rng.uniform(-0.8, 0.8)
            a[("p", 3 * i + 2)] = rng.uniform(1.1, 2.5)
        for j, v in enumerate((1200., 1100., 640., 480.)):
            a[("i", j)] = v * rng.uniform(0.9, 1.1)
            a[("f", j)] = a[("i", j)]
        for j in range(4, 16):
            a[("i", j)] = rng.uniform(0.01, 0.06) * (1 if rng.random() < 0.6 else -1)
        for i in range(N):
            a[("q", 2 * i)] = a[("f", 2)] + rng.uniform(-500, 500)
            a[("q", 2 * i + 1)] = a[("f", 3)] + rng.uniform(-400, 400)
        out.append(a)
    return out


def outside_default(pt):
    """Control points of a splined model are small"""
    return pt


class SmallInterp(MPInterp):
    def atom(self, a):
        if a in self.vals:
            return self.vals[a]
        k = atom_key(a)
        if k[0] == "var" and k[1] in ("outside",):
            v = self.mp.mpf(self.rng.uniform(-0.1, 0.1))
            self.vals[a] = v
            return v
        return MPInterp.atom(self, a)


def agree(a, b, pts, tol=1e-12, scale=None):
    """None if the terms agree at all points where they are defined; else (point, x, y)"""
    n = 0
    for k, pt in enumerate(pts):
        I = SmallInterp(5 + k, pt)
        x, y = I.ev(a), I.ev(b)
        if x != x and y != y:
            continue
        n += 1
        if x != x or y != y or abs(x - y) > tol * max(scale or 1, abs(x), abs(y)):
            return pt, x, y
    if n == 0:
        raise AnalysisError("no interpretation point is in the domain of %s" % show(a, 1, 3))
    return None


def decide(ctx, key, what, a, b, pts, tol=1e-12, proof=True, scale=None):
    ctx.count("obligations")
    if a is None or b is None:
        ctx.violation(key, what + ": not written")
        return False
    d = a - b
    if d.is_zero() or (proof and proves_zero(d, 4000, 60000) is True):
        ctx.count("discharged_by_normal_form")
        return True
    bad = agree(a, b, pts, tol, scale)
    if bad is None:
        ctx.count("discharged_by_random_interpretation")
        return True
    ctx.violation(key, "%s: %s vs %s; at a sample point %s vs %s" % (what, show(a, 1, 3)[:300], show(b, 1, 3)[:300], float(bad[1]), float(bad[2])))
    return False


def project_wrapper(n, model, cfg, N, dp, di):
    lm = "{.type=MRCAL_LENSMODEL_%s%s}" % (model, ("," + cfg) if cfg else "")
    return (n, "extern double {n}_q[],{n}_dp[],{n}_di[],{n}_p[],{n}_i[];\nint {n}(void){{ mrcal_lensmodel_t lm={lm}; "
            "return mrcal_project((mrcal_point2_t*){n}_q,{dp},{di},(const mrcal_point3_t*){n}_p,{N},&lm,{n}_i);}}\n".format(
                n=n, lm=lm, N=N, dp="(mrcal_point3_t*)%s_dp" % n if dp else "NULL", di="%s_di" % n if di else "NULL"))


def simple_wrapper(n, kind, proj, N, grad):
    if proj:
        return (n, "extern double {n}_q[],{n}_dp[],{n}_p[],{n}_f[];\nvoid {n}(void){{ mrcal_project_{k}((mrcal_point2_t*){n}_q,{g},"
                "(const mrcal_point3_t*){n}_p,{N},{n}_f);}}\n".format(n=n, k=kind, N=N, g="(mrcal_point3_t*)%s_dp" % n if grad else "NULL"))
    return (n, "extern double {n}_v[],{n}_dv[],{n}_q[],{n}_f[];\nvoid {n}(void){{ mrcal_unproject_{k}((mrcal_point3_t*){n}_v,{g},"
            "(const mrcal_point2_t*){n}_q,{N},{n}_f);}}\n".format(n=n, k=kind, N=N, g="(mrcal_point2_t*)%s_dv" % n if grad else "NULL"))


def V(a):
    return atom(("var",) + a)


def shift(p, names):
    """Rename element k of each array to element k+names[array]"""
    m = {}
    for a in atoms_of(p):
        k = atom_key(a)
        if k[0] == "var" and k[1] in names:
            m[a] = var(k[1], k[2] + names[k[1]])
    return terms.subst(p, m)


def check_calls(ctx, key, what, s):
    for a in s.wild():
        ctx.violation(key + ":wild", "%s: access through a NULL or unrelated pointer (%s)" % (what, a.inst.where()))
    bad = [c for c in s.ev.calls if c[0] not in ("fprintf", "printf", "fwrite", "fputs", "fputc", "__assert_fail")]
    if bad:
        raise AnalysisError("%s: unresolved call to %s" % (what, bad[0][0]))


# ------------------------------------------------------------------ C05
def c05(ctx):
    ctx.rule("projection-gradient: dq/dp and dq/dintrinsics equal the formal derivatives of the value number of q; "
             "multi-point: the outputs for point i equal those of a one-point call on that point and depend on no other point; "
             "optional: q is the same for every combination of requested gradients")
    ws = []
    jobs = []
    for label, model, n, cfg in MODELS:
        cah = model == "CAHVORE"
        spl = model.startswith("SPLINED")
        combos = [("a", 1, 1, 1), ("b", 2, 1, 1), ("c", 2, 1, 0), ("d", 2, 0, 1), ("e", 2, 0, 0)]
        if cah:
            combos = [("a", 1, 1, 1)] if label == "CAHVORE_n" and not ctx.thorough else combos if label == "CAHVORE_p" else [
                ("a", 1, 1, 1), ("c", 1, 1, 0), ("d", 1, 0, 1), ("e", 1, 0, 0)]
        jobs.append((label, model, n, combos))
        for c, N, dp, di in combos:
            ws.append(project_wrapper("w_%s_%s" % (label, c), model, cfg, N, dp, di))
    for k in SIMPLE:
        for pr in (1, 0):
            for c, N, g in (("a", 1, 1), ("b", 2, 1), ("e", 2, 0)):
                ws.append(simple_wrapper("%s_%s_%s" % ("p" if pr else "u", k, c), k, pr, N, g))
    F = genlib.build("c05", ws, front.lib_sources(), PRE, nch=len(ws))
    items = [("model", j, F) for j in jobs] + [("simple", (k, pr), F) for k in SIMPLE for pr in (1, 0)]
    items.sort(key=lambda x: not (x[0] == "model" and x[1][1] == "CAHVORE"))
    ctx.parallel(_c05_one, items)
    ctx.require("models", len(MODELS))
    ctx.require("obligations", 400)
    ctx.assumptions += ["Real arithmetic inside each branch region.",
                        "CAHVORE: the Newton iteration is unrolled by constant trip count; its implicit gradient is compared to "
                        "1e-6 at converged points only.",
                        "Splined models: configurations order 2 and 3, Nx=11, Ny=9; control points are addressed symbolically."]


def _c05_one(ctx, item):
    terms.reset()
    if item[0] == "simple":
        return _c05_simple(ctx, item[1], item[2])
    (label, model, n, combos), F = item[1], item[2]
    ctx.count("models")
    cah, spl = model == "CAHVORE", model.startswith("SPLINED")
    tol = 1e-6 if cah else 1e-12
    S = {}
    for c, N, dp, di in combos:
        w = "w_%s_%s" % (label, c)
        S[c] = genlib.Sum(F[w], w + "_")
        check_calls(ctx, "C05:%s" % label, "%s (N=%d)" % (label, N), S[c])
        ctx.count("accesses", len(S[c].ev.accesses))
    pts = lens_points(1)
    pts2 = lens_points(2, 2)
    a = S["a"]
    q = a.out("q", 2)
    for r in range(2):
        if q[r] is None:
            ctx.violation("C05:%s:q" % label, "%s: q[%d] is not written" % (label, r))
            return
        if cah:
            # the Newton iteration: decide along the path (number of iterations, branches) each point takes
            for pt in pts:
                I = MPInterp(5, pt)
                cache = {}
                qr = terms.on_path(q[r], I, cache)
                for nm, cnt in (("p", 3), ("i", n)):
                    g = {"p": "dp", "i": "di"}[nm]
                    for c in range(cnt):
                        got = a.at(g, cnt * r + c)
                        decide(ctx, "C05:%s:%s" % (label, g), "%s: dq[%d]/d%s[%d]" % (label, r, nm, c),
                               None if got is None else terms.on_path(got, I, cache), diff(qr, V((nm, c))), [pt], tol, proof=False, scale=100)
            continue
        for c in range(3):
            decide(ctx, "C05:%s:dq_dp" % label, "%s: dq[%d]/dp[%d]" % (label, r, c),
                   a.at("dp", 3 * r + c), diff(q[r], V(("p", c))), pts, tol, proof=not spl)
        for c in range(4 if spl else n):
            decide(ctx, "C05:%s:dq_dintrinsics" % label, "%s: dq[%d]/dintrinsics[%d]" % (label, r, c),
                   a.at("di", n * r + c), diff(q[r], V(("i", c))), pts, tol, proof=not spl)
    if spl:
        _c05_splined(ctx, label, n, a, q, pts)
        return
    # rows of the gradients, combinations and points
    for c, N, dp, di in combos:
        if c == "a":
            continue
        s = S[c]
        if cah:
            _c05_same_values(ctx, label, n, a, s, N, dp, di, pts2[:1])
            _bounds(ctx, label, s, {"q": 2 * N, "dp": 6 * N if dp else 0, "di": 2 * n * N if di else 0})
            continue
        for i in range(N):
            names = {"p": 3 * i}
            ref_pts = pts2[:1] if cah else pts2
            for r in range(2):
                decide(ctx, "C05:%s:points" % label, "%s: q[%d] of point %d of %d (gradients: %s)" % (label, r, i, N, _g(dp, di)),
                       s.at("q", 2 * i + r), shift(q[r], names), ref_pts, tol, proof=False)
                if dp:
                    for k in range(3):
                        decide(ctx, "C05:%s:points" % label, "%s: dq[%d]/dp[%d] of point %d of %d (gradients: %s)" % (label, r, k, i, N, _g(dp, di)),
                               s.at("dp", 6 * i + 3 * r + k), shift(a.at("dp", 3 * r + k), names), ref_pts, tol, proof=False)
                if di:
                    for k in range(n):
                        decide(ctx, "C05:%s:points" % label, "%s: dq[%d]/dintrinsics[%d] of point %d of %d (gradients: %s)" % (label, r, k, i, N, _g(dp, di)),
                               s.at("di", 2 * n * i + n * r + k), shift(a.at("di", n * r + k), names), ref_pts, tol, proof=False)
        _bounds(ctx, label, s, {"q": 2 * N, "dp": 6 * N if dp else 0, "di": 2 * n * N if di else 0})
    ctx.sample("%s: %d parameters" % (label, n))


def _c05_same_values(ctx, label, n, a, s, N, dp, di, pts):
    """Iterative model: compare along the path taken at each point"""
    for pt in pts:
        I2 = MPInterp(5, pt)
        for i in range(N):
            p1 = dict(pt)
            for k in range(3):
                p1[("p", k)] = pt[("p", 3 * i + k)]
            I1 = MPInterp(5, p1)
            todo = [("q", 2, 1)] + ([("dp", 6, 1)] if dp else []) + ([("di", 2 * n, 1)] if di else [])
            for nm, cnt, _ in todo:
                for k in range(cnt):
                    ctx.count("obligations")
                    x, y = s.at(nm, cnt * i + k), a.at(nm, k)
                    if x is None or y is None:
                        ctx.violation("C05:%s:points" % label, "%s: %s[%d] of point %d of %d is not written" % (label, nm, k, i, N))
                        continue
                    x, y = I2.ev(x), I1.ev(y)
                    if not abs(x - y) <= 1e-12 * max(1, abs(x)):
                        ctx.violation("C05:%s:points" % label, "%s: %s[%d] of point %d of %d (gradients: %s) differs from that of the point alone" % (
                            label, nm, k, i, N, _g(dp, di)))
                    else:
                        ctx.count("discharged_by_random_interpretation")


def _g(dp, di):
    return ",".join([x for x, y in (("dq_dp", dp), ("dq_dintrinsics", di)) if y]) or "none"


def _bounds(ctx, label, s, sizes):
    for n, sz in sizes.items():
        for off, size, a in s.written(n):
            c = off.const()
            if c is None or c < 0 or c + size > 8 * sz:
                ctx.violation("C05:%s:bounds:%s" % (label, n), "%s: writes %s at byte %s, outside its %d elements (%s)" % (
                    label, n, show(off, 1), sz, a.inst.where()))


def _c05_splined(ctx, label, n, s, q, pts):
    """Control points are loaded at a symbolic offset o(p); the gradient must be stored at row*n*8+o for every one"""
    pre = ("global", s.pre + "di")
    stored = {k[1]: v[0] for k, v in s.ev.retmem.items() if k[0] == pre and k[1].const() is None}
    used = set()
    for r in range(2):
        for a in atoms_of(q[r]):
            k = atom_key(a)
            if k[0] == "var" and k[1] == "outside" and k[2] == "i":
                used.add((r, a, k[3]))
    ctx.count("control_point_gradients", len(used))
    if len(used) < 18:
        raise AnalysisError("%s: only %d control points are used" % (label, len(used)))
    left = dict(stored)
    for r, a, off in sorted(used, key=lambda x: (x[0], x[1])):
        want = off + 8 * n * r
        d = diff(q[r], a)
        got = left.pop(want, None)
        if got is None:
            # the offset may be written differently: look for one equal at the sample points
            for o in list(left):
                try:
                    if agree(o, want, pts, 1e-9) is None:
                        got = left.pop(o)
                        break
                except AnalysisError:
                    pass
        if got is None:
            ctx.violation("C05:%s:control-points" % label, "%s: dq[%d]/d(control point at offset %s) is not reported" % (label, r, show(off, 1)))
            continue
        decide(ctx, "C05:%s:control-points" % label, "%s: dq[%d]/d(control point at offset %s)" % (label, r, show(off, 1)), got, d, pts, 1e-12, proof=False)
    for o, v in left.items():
        ctx.violation("C05:%s:control-points" % label, "%s: a gradient is reported at element offset %s, which q does not depend on" % (label, show(o, 2)))
        break
    # the other elements are 0
    zero = [v[0] for k, v in s.ev.retmem.items() if k[0] == pre and k[1].const() is not None and (k[1].const() // 8) % n >= 4]
    if len(zero) != 2 * (n - 4) or not all(isinstance(z, Poly) and z.is_zero() for z in zero):
        ctx.violation("C05:%s:zero" % label, "%s: the gradient elements of unused control points are not all cleared" % label)
    # every index the clamps allow is inside the parameter vector
    offs = [a for a in s.ev.accesses if a.base in (("global", s.pre + "i"), pre) and a.off.const() is None]
    idx = {}
    for a in offs:
        for at in atoms_of(a.off):
            if atom_key(at)[0] == "fn" and atom_key(at)[1] in ("fptosi", "floor"):
                idx[at] = 1
    idx = sorted(idx)
    if not 1 <= len(idx) <= 2:
        raise AnalysisError("%s: expected two knot indices, found %d" % (label, len(idx)))
    bad = set()
    for x in range(-30, 41):
        for y in range(-30, 41):
            I = MPInterp(1, {})
            I.vals[idx[0]] = I.mp.mpf(x)
            if len(idx) > 1:
                I.vals[idx[1]] = I.mp.mpf(y)
            seen = {}
            for a in offs:
                k = (a.base, a.off)
                if k in seen:
                    continue
                seen[k] = 1
                o = int(I.ev(a.off))
                lim = 8 * n if a.base[1].endswith("_i") else 16 * n
                if not 32 <= o <= lim - 8:
                    bad.add((a.base[1], o, x, y))
            ctx.count("clamped_indices", len(seen))
            if bad:
                break
        if bad:
            break
    for b, o, x, y in bad:
        ctx.violation("C05:%s:index" % label, "%s: knot index (%d,%d) addresses byte %d of the parameters, outside the control points" % (label, x, y, o))


def _c05_simple(ctx, item, F):
    kind, pr = item
    pre = "p" if pr else "u"
    S = {}
    for c, N in (("a", 1), ("b", 2), ("e", 2)):
        w = "%s_%s_%s" % (pre, kind, c)
        S[c] = genlib.Sum(F[w], w + "_")
        check_calls(ctx, "C05:%s" % w, w, S[c])
    ctx.count("simple_functions")
    label = ("project_" if pr else "unproject_") + kind
    pts, pts2 = lens_points(1), lens_points(2)
    on, no, inn, ni, gn = ("q", 2, "p", 3, "dp") if pr else ("v", 3, "q", 2, "dv")
    a = S["a"]
    out = a.out(on, no)
    if any(o is None for o in out):
        ctx.violation("C05:%s:out" % label, "%s: an output is not written" % label)
        return
    for r in range(no):
        for c in range(ni):
            decide(ctx, "C05:%s:gradient" % label, "%s: d%s[%d]/d%s[%d]" % (label, on, r, inn, c), a.at(gn, ni * r + c), diff(out[r], V((inn, c))), pts)
    for c, g in (("b", 1), ("e", 0)):
        s = S[c]
        for i in range(2):
            for r in range(no):
                decide(ctx, "C05:%s:points" % label, "%s: %s[%d] of point %d of 2" % (label, on, r, i), s.at(on, no * i + r), shift(out[r], {inn: ni * i}), pts2, proof=False)
                if g:
                    for k in range(ni):
                        decide(ctx, "C05:%s:points" % label, "%s: d%s[%d]/d%s[%d] of point %d of 2" % (label, on, r, inn, k, i),
                               s.at(gn, no * ni * i + ni * r + k), shift(a.at(gn, ni * r + k), {inn: ni * i}), pts2, proof=False)
        _bounds(ctx, label, s, {on: 2 * no, gn: 2 * no * ni if g else 0})


# ------------------------------------------------------------------ C24 documented formulas
def ref_projection(label, p, i):
    x, y, z = p
    fx, fy, cx, cy = i[:4]
    if label == "PINHOLE":
        u = [x * inv(z), y * inv(z)]
    elif label == "STEREOGRAPHIC":
        m = sqrt(x * x + y * y + z * z)
        u = [2 * x * inv(m + z), 2 * y * inv(m + z)]
    elif label == "LONLAT":
        m = sqrt(x * x + y * y + z * z)
        u = [fn("atan2", x, z), fn("asin", y * inv(m))]
    elif label == "LATLON":
        m = sqrt(x * x + y * y + z * z)
        u = [fn("asin", x * inv(m)), fn("atan2", y, z)]
    elif label.startswith("OPENCV"):
        k = list(i[4:]) + [ZERO] * 12
        a, b = x * inv(z), y * inv(z)
        r2 = a * a + b * b
        num_ = ONE + k[0] * r2 + k[1] * r2 * r2 + k[4] * r2 * r2 * r2
        den = ONE + k[5] * r2 + k[6] * r2 * r2 + k[7] * r2 * r2 * r2
        u = [a * num_ * inv(den) + 2 * k[2] * a * b + k[3] * (r2 + 2 * a * a) + k[8] * r2 + k[9] * r2 * r2,
             b * num_ * inv(den) + 2 * k[3] * a * b + k[2] * (r2 + 2 * b * b) + k[10] * r2 + k[11] * r2 * r2]
    elif label == "CAHVOR":
        al, be, r0, r1, r2 = i[4:9]
        sa, ca, sb, cb = fn("sin", al), fn("cos", al), fn("sin", be), fn("cos", be)
        o = [sa * cb, sb, ca * cb]
        w = x * o[0] + y * o[1] + z * o[2]
        pp = [x, y, z]
        lam = [pp[k] - w * o[k] for k in range(3)]
        tau = (lam[0] * lam[0] + lam[1] * lam[1] + lam[2] * lam[2]) * inv(w * w)
        mu = r0 + r1 * tau + r2 * tau * tau
        d = [pp[k] + mu * lam[k] for k in range(3)]
        u = [d[0] * inv(d[2]), d[1] * inv(d[2])]
    else:
        return None
    return [u[0] * fx + cx, u[1] * fy + cy]


def c24(ctx):
    ctx.rule("projection-formula: the value number of q equals the documented projection of each closed-form lens model")
    ws = []
    for label, model, n, cfg in MODELS:
        if model == "CAHVORE" or model.startswith("SPLINED"):
            continue
        for c, dp, di in (("a", 1, 1), ("e", 0, 0), ("c", 1, 0)):
            ws.append(project_wrapper("w_%s_%s" % (label, c), model, cfg, 1, dp, di))
    for k in SIMPLE:
        ws.append(simple_wrapper("p_%s" % k, k, 1, 1, 0))
    # CAHVORE with E=0 and linearity 1 is CAHVOR
    ws.append(project_wrapper("w_CAHVORE_1_e", "CAHVORE", ".LENSMODEL_CAHVORE__config={.linearity=1.0}", 1, 0, 0))
    F = genlib.build("c24", ws, front.lib_sources(), PRE, nch=len(ws))
    pts = lens_points(1, 5)
    for label, model, n, cfg in MODELS:
        for c in "aec":
            w = "w_%s_%s" % (label, c)
            if w not in F:
                continue
            terms.reset()
            s = genlib.Sum(F[w], w + "_")
            check_calls(ctx, "C24:%s" % label, label, s)
            want = ref_projection(label, [var("p", k) for k in range(3)], [var("i", k) for k in range(n)])
            for r in range(2):
                decide(ctx, "C24:%s" % label, "%s: q[%d] is not the documented projection" % (label, r), s.at("q", r), want[r], pts)
            ctx.count("variants")
            ctx.sample("%s: q = %s" % (label, show(want[0], 1, 4)[:120]))
    for k in SIMPLE:
        terms.reset()
        w = "p_" + k
        s = genlib.Sum(F[w], w + "_")
        want = ref_projection(k.upper(), [var("p", j) for j in range(3)], [var("f", j) for j in range(4)])
        for r in range(2):
            decide(ctx, "C24:project_%s" % k, "mrcal_project_%s: q[%d] is not the documented projection" % (k, r), s.at("q", r), want[r], pts)
        ctx.count("variants")
    terms.reset()
    s = genlib.Sum(F["w_CAHVORE_1_e"], "w_CAHVORE_1_e_")
    want = ref_projection("CAHVOR", [var("p", k) for k in range(3)], [var("i", k) for k in range(9)])
    pe = [dict(p, **{}) for p in pts[:2]]
    for p in pe:
        for k in (9, 10, 11):
            p[("i", k)] = 0.0
    for r in range(2):
        decide(ctx, "C24:CAHVORE", "CAHVORE with E=0 and linearity=1: q[%d] is not the CAHVOR projection" % r, s.at("q", r), want[r], pe, 1e-7, proof=False)
    ctx.count("variants")
    ctx.require("variants", 30)


# ------------------------------------------------------------------ C25 inverses
def c25(ctx):
    ctx.rule("closed-form-inverse: composing the value numbers of a closed-form projection with those of its unprojection "
             "gives the identity on the image, and unprojected directions are not flipped")
    ws = []
    for k in SIMPLE:
        ws.append(simple_wrapper("p_" + k, k, 1, 1, 0))
        ws.append(simple_wrapper("u_" + k, k, 0, 1, 0))
        n = "m_" + k
        ws.append((n, "extern double {n}_v[],{n}_q[],{n}_f[];\nint {n}(void){{ mrcal_lensmodel_t lm={{.type=MRCAL_LENSMODEL_{K}}}; "
                   "return mrcal_unproject((mrcal_point3_t*){n}_v,(const mrcal_point2_t*){n}_q,1,&lm,{n}_f);}}\n".format(n=n, K=k.upper())))
    F = genlib.build("c25", ws, front.lib_sources(), PRE, nch=len(ws))
    for k in SIMPLE:
        terms.reset()
        sp = genlib.Sum(F["p_" + k], "p_%s_" % k)
        q = sp.out("q", 2)
        rng = random.Random(5)
        pts = []
        for j in range(12):
            f = {("f", 0): rng.uniform(500, 2000), ("f", 1): rng.uniform(500, 2000), ("f", 2): rng.uniform(300, 900), ("f", 3): rng.uniform(300, 900)}
            u = [rng.uniform(-1.2, 1.2), rng.uniform(-1.2, 1.2)]
            if k == "stereographic" and j % 3 == 0:
                u = [x * 4 for x in u]        # behind the camera
            if k == "lonlat" and j % 3 == 0:
                u[0] = rng.choice((-1, 1)) * rng.uniform(1.7, 3.1)
            if k == "latlon" and j % 3 == 0:
                u[1] = rng.choice((-1, 1)) * rng.uniform(1.7, 3.1)
            f[("q", 0)] = u[0] * f[("f", 0)] + f[("f", 2)]
            f[("q", 1)] = u[1] * f[("f", 1)] + f[("f", 3)]
            pts.append(f)
        for which in ("u", "m"):
            su = genlib.Sum(F["%s_%s" % (which, k)], "%s_%s_" % (which, k))
            check_calls(ctx, "C25:" + k, k, su)
            v = su.out("v", 3)
            if any(x is None for x in v):
                ctx.violation("C25:%s:unwritten" % k, "unprojection (%s): an output is not written" % k)
                continue
            m = {V(("p", j)): v[j] for j in range(3)}
            for r in range(2):
                decide(ctx, "C25:%s" % k, "%s: project(unproject(q))[%d] is not q[%d]" % (k, r, r), terms.subst(q[r], m), var("q", r), pts, 1e-10)
            ctx.count("compositions")
    ctx.require("compositions", 8)
    ctx.assumptions.append("Decided inside the documented domain: away from the poles, within one turn.")
