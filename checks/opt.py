"""C07-C10: the optimizer's state vector, measurement vector, packing and Jacobian."""
import random

import front
import genlib
import optlib
import terms
from front import AnalysisError
from lens import SmallInterp, check_calls
from optlib import Problem
from terms import P, Poly, ZERO, atom, atom_key, atoms_of, diff, on_path, proves_zero, show, var

ALL = optlib.SEL
TRI = ((0, -1, 0, 0), (1, 0, 0, 0), (2, 1, 1, 0), (0, -1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 0), (0, -1, 0, 1), (2, 1, 1, 0))


def base(name, **kw):
    d = dict(Nci=2, Nce=1, Nf=2, Np=3, Npf=1, W=2, H=2)
    d.update(kw)
    return Problem(name, **d)


def problems(thorough):
    noint = ("do_optimize_intrinsics_core", "do_optimize_intrinsics_distortions")
    p = [
        base("all"),
        base("nocore", off=("do_optimize_intrinsics_core",)),
        base("nodist", off=("do_optimize_intrinsics_distortions",)),
        base("noint", off=noint),
        base("noext", off=("do_optimize_extrinsics",)),
        base("nofr", off=("do_optimize_frames",)),
        base("nowarp", off=("do_optimize_calobject_warp",)),
        base("warpnull", warp=False, off=("do_optimize_calobject_warp",)),
        base("noreg", off=("do_apply_regularization",)),
        base("unity", on=("do_apply_regularization_unity_cam01",)),
        base("onlywarp", off=noint + ("do_optimize_extrinsics", "do_optimize_frames")),
        base("onlyfr", off=noint + ("do_optimize_extrinsics", "do_optimize_calobject_warp")),
        base("nojt", jt=False),
        base("pinhole", model="PINHOLE", nparams=4),
        base("cv8", model="OPENCV8", nparams=12),
        base("cahvor", model="CAHVOR", nparams=9),
        base("cam3", Nci=2, Nce=2, boards=((0, -1, 0), (1, 0, 1), (1, 1, 1), (0, 1, 0)), points=((0, 1, 2), (1, -1, 0))),
        base("allpts", boards=(), points=((0, -1, 0), (1, 0, 2), (1, 0, 1), (0, 0, 0)), Nf=0, W=0, H=0, off=("do_optimize_calobject_warp",)),
        base("allbrd", points=(), Np=0, Npf=0),
        base("tri", Nci=3, Nce=2, boards=(), points=((0, -1, 0),), Nf=0, Np=1, Npf=0, tri=TRI, W=0, H=0, off=noint + ("do_optimize_calobject_warp",)),
        base("spl3", model="SPLINED_STEREOGRAPHIC", nparams=4 + 2 * 5 * 4, cfg=SPL % 3, boards=((0, -1, 0), (1, 0, 1)), points=((0, -1, 0),), Nce=1, Np=1, Npf=0, Nf=2),
        base("spl2", model="SPLINED_STEREOGRAPHIC", nparams=4 + 2 * 5 * 4, cfg=SPL % 2, boards=((0, -1, 0), (1, 0, 1)), points=((0, -1, 0),), Nce=1, Np=1, Npf=0, Nf=2,
             off=("do_optimize_intrinsics_core",)),
        base("unity3", Nci=3, Nce=2, boards=((0, -1, 0), (2, 1, 1)), points=((1, 0, 0),), on=("do_apply_regularization_unity_cam01",)),
    ]
    return p + random_problems("rnd", 60 if thorough else 14, 77)


RMODELS = [("OPENCV4", 8), ("PINHOLE", 4), ("CAHVOR", 9), ("OPENCV5", 9), ("STEREOGRAPHIC", 4), ("LONLAT", 4)]


def random_problems(prefix, n, seed, big=False):
    """Structures drawn (reproducibly) from the product of all choices: models, counts, selections, observation lists"""
    rng = random.Random(seed)
    out = []
    for k in range(n):
        model, npar = RMODELS[k % 3] if rng.random() < 0.7 else rng.choice(RMODELS)
        Nce = rng.choice((0, 1, 1, 2, 2, 3))
        Nci = rng.choice((1, Nce + 1, Nce + 1, max(1, Nce)))
        Nf = rng.choice((0, 1, 2, 2, 3))
        Np = rng.choice((0, 1, 2, 3, 4))
        Npf = rng.randint(0, Np) if rng.random() < 0.7 else 0
        nb = 0 if Nf == 0 else rng.randint(1, 3)
        npt = 0 if Np == 0 else rng.randint(1, 4)
        boards = tuple(sorted((rng.randrange(Nci), rng.randrange(-1, Nce), rng.randrange(Nf)) for _ in range(nb)))
        points = tuple((rng.randrange(Nci), rng.randrange(-1, Nce), rng.randrange(Np)) for _ in range(npt))
        off = [f for f in ("do_optimize_intrinsics_core", "do_optimize_intrinsics_distortions", "do_optimize_extrinsics", "do_optimize_frames",
                           "do_optimize_calobject_warp", "do_apply_regularization") if rng.random() < 0.25]
        W, H = ((3, 2) if big else rng.choice(((2, 2), (3, 2), (2, 3)))) if nb else (0, 0)
        warp = nb > 0 and rng.random() < 0.8
        if not warp and "do_optimize_calobject_warp" not in off:
            off.append("do_optimize_calobject_warp")
        on = ["do_apply_regularization_unity_cam01"] if Nce > 0 and rng.random() < 0.6 else []
        tri = ()
        if Nce >= 1 and rng.random() < 0.4:
            t = []
            for _ in range(rng.randint(1, 2)):
                cs = rng.sample(range(Nce + 1), min(rng.randint(2, 3), Nce + 1))        # a camera sees a point once
                t += [(min(c, Nci - 1), c - 1, int(j == len(cs) - 1), 0) for j, c in enumerate(cs)]
            tri = tuple(t)
            # the library demands this for now
            off = [f for f in off if f != "do_optimize_extrinsics" and not f.startswith("do_optimize_intr")] + [
                "do_optimize_intrinsics_core", "do_optimize_intrinsics_distortions"]
        if not boards and not points and not tri:
            points, Np, Npf = ((0, -1, 0),), 1, 0
        if not tri:
            off = [f for f in off if f != "do_optimize_intrinsics_core"]        # something must be optimized
        out.append(Problem("%s%d" % (prefix, k), model=model, nparams=npar, Nci=Nci, Nce=Nce, Nf=Nf, Np=Np, Npf=Npf, boards=boards, points=points,
                           tri=tri, off=tuple(off), on=tuple(on), W=W, H=H, warp=warp))
    return out


SPL = ".LENSMODEL_SPLINED_STEREOGRAPHIC__config={.order=%d,.Nx=5,.Ny=4,.fov_x_deg=150}"


def localize(p, I, cache):
    """Array elements addressed at run time: the element they are at this interpretation point"""
    m = {}
    for _ in range(4):
        new = {a: k for a in atoms_of(p) for k in [atom_key(a)] if k[0] == "var" and k[1] == "outside" and a not in m}
        if not new:
            break
        for a, k in new.items():
            o = I.ev(k[3])
            if k[4] != 8 or o != int(o) or int(o) % 8:
                raise AnalysisError("array %s read at byte %s" % (k[2], o))
            m[a] = var(k[2], int(o) // 8)
    return terms.subst(p, m) if m else p


def interp_points(pr, seed):
    """Numbers for the symbolic inputs: cameras side by side, boards and points in front of them, some outliers"""
    rng = random.Random(seed)
    a = {}
    u = rng.uniform
    for c in range(pr.Nci):
        for k in range(pr.nparams):
            a[("i", c * pr.nparams + k)] = (u(900, 1300), u(900, 1300), u(600, 680), u(440, 520))[k] if k < 4 else u(0.004, 0.02) * rng.choice((1, -1))
    for c in range(pr.Nce):
        for k in range(6):
            a[("rc", 6 * c + k)] = u(0.02, 0.12) * rng.choice((1, -1)) if k < 3 else u(0.1, 0.4) * rng.choice((1, -1))
    for f in range(pr.Nf):
        for k in range(6):
            a[("rf", 6 * f + k)] = u(0.05, 0.3) * rng.choice((1, -1)) if k < 3 else u(-0.3, 0.3) if k < 5 else u(3, 4)
    for i in range(pr.Np):
        for k in range(3):
            a[("pt", 3 * i + k)] = u(-0.5, 0.5) if k < 2 else u(3, 4)
    a[("w", 0)], a[("w", 1)] = u(0.002, 0.01), -u(0.002, 0.01)
    nb = len(pr.boards) * pr.W * pr.H
    out = seed % 2
    for i in range(nb):
        a[("ob", 3 * i)], a[("ob", 3 * i + 1)] = u(100, 1100), u(100, 800)
        a[("ob", 3 * i + 2)] = -1.0 if out and i % 3 == 1 else u(0.5, 1.5)
    for i in range(len(pr.points)):
        a[("op", 3 * i)], a[("op", 3 * i + 1)] = u(100, 1100), u(100, 800)
        a[("op", 3 * i + 2)] = -1.0 if out and i % 3 == 1 else u(0.5, 1.5)
    return a


def evaluate(pr, F, unroll=9):
    terms.LET_THRESHOLD, terms.MUL_THRESHOLD, terms.SUBST_THRESHOLD = 8, 24, 6
    s = genlib.Sum(F[pr.name], pr.name + "_", unroll_by=unroll)
    if s.overflowed():
        raise AnalysisError("%s: a loop runs more often than expected" % pr.name)
    return s


def ints(s, name, n):
    r = []
    for k in range(n):
        v = s.at(name, k, 4)
        c = v.const() if v is not None else None
        if v is not None and c is None and not any(atom_key(a)[0] == "var" for a in atoms_of(v)):
            c = round(SmallInterp(1, {}).ev(v))     # a constant expression
        r.append(None if c is None else int(c) if c < 2 ** 31 else int(c) - 2 ** 32)
    return r


def states(ctx, pr, s, Nstate, prop):
    """b_packed[col] = scale * variable, for every column"""
    out = []
    for col, t in enumerate(s.out("b", Nstate)):
        ok = t is not None and len(t.t) == 1
        if ok:
            (m, c), = t.t.items()
            ok = len(m) == 1 and m[0][1] == 1 and atom_key(m[0][0])[0] == "var"
        if not ok:
            ctx.violation("%s:%s:b[%d]" % (prop, pr.name, col), "problem '%s': packed state element %d is %s, not one scaled state variable" % (
                pr.name, col, "not written" if t is None else show(t, 1, 3)))
            return None
        out.append((m[0][0], c))
    if len({a for a, _ in out}) != len(out):
        ctx.violation("%s:%s:dup" % (prop, pr.name), "problem '%s': some variable appears twice in the packed state" % pr.name)
        return None
    return out


# ------------------------------------------------------------------ C07, C08, C09
def small_problems(thorough):
    """Structures for the layout queries: each selection alone and in pairs, several lens models and camera/point counts"""
    noint = ("do_optimize_intrinsics_core", "do_optimize_intrinsics_distortions")
    out = [
        base("l_all", Nf=3, Np=4, Npf=1),
        base("l_pin", model="PINHOLE", nparams=4),
        base("l_cv5", model="OPENCV5", nparams=9, Nci=3, Nce=2, boards=((0, -1, 0), (1, 0, 1), (2, 1, 2)), Nf=3),
        base("l_cahvor", model="CAHVOR", nparams=9, on=("do_apply_regularization_unity_cam01",)),
        base("l_cahvore", model="CAHVORE", cfg=".LENSMODEL_CAHVORE__config={.linearity=0.0}", nparams=12, boards=((0, -1, 0),), points=(), Np=0, Npf=0, Nci=1, Nce=0, W=1, H=1),
        base("l_spl", model="SPLINED_STEREOGRAPHIC", nparams=4 + 2 * 5 * 4, cfg=SPL % 3),
        base("l_noext", Nci=1, Nce=0, boards=((0, -1, 0), (0, -1, 1)), points=((0, -1, 1),)),
        base("l_fixed", Np=3, Npf=3),
        base("l_nopts", Np=0, Npf=0, points=()),
        base("l_nobrd", Nf=0, boards=(), W=0, H=0),
        base("l_rect", W=3, H=2),
        base("l_tri", Nci=3, Nce=2, boards=(), points=((0, -1, 0),), Nf=0, Np=1, Npf=0, tri=TRI, W=0, H=0, off=noint),
        base("l_triB", Nci=3, Nce=2, points=((0, -1, 0), (2, 1, 1)), tri=TRI[:3], off=noint, on=("do_apply_regularization_unity_cam01",)),
    ]
    flags = ["do_optimize_intrinsics_core", "do_optimize_intrinsics_distortions", "do_optimize_extrinsics", "do_optimize_frames",
             "do_optimize_calobject_warp", "do_apply_regularization"]
    for f in flags:
        out.append(base("l_no_" + f[3:], off=(f,), on=("do_apply_regularization_unity_cam01",)))
    for i, f in enumerate(flags):
        for g in flags[i + 1:]:
            if (f, g) != noint and f.startswith("do_optimize_intr") and not thorough:
                continue
            out.append(base("l_no_%s_%s" % (f[3:], g[3:]), off=(f, g), model="PINHOLE" if len(out) % 2 else "OPENCV4", nparams=4 if len(out) % 2 else 8))
    return out + random_problems("rs", 80 if thorough else 20, 78, big=True)


def state_queries(pr):
    nb = len(pr.boards)
    a = "%d,%d,%d,%d,%d,%d,sel,&lm" % (pr.Nci, pr.Nce, pr.Nf, pr.Np, pr.Npf, nb)
    q = []
    for kind, N in (("intrinsics", pr.Nci), ("extrinsics", pr.Nce), ("frames", pr.Nf), ("points", pr.Np)):
        for k in range(-1, N + 2):
            q.append((("index", kind, k), "mrcal_state_index_%s(%d,%s)" % (kind, k, a)))
    q.append((("index", "calobject_warp", 0), "mrcal_state_index_calobject_warp(%s)" % a))
    q.append((("num", "intrinsics"), "mrcal_num_states_intrinsics(%d,sel,&lm)" % pr.Nci))
    q.append((("num", "extrinsics"), "mrcal_num_states_extrinsics(%d,sel)" % pr.Nce))
    q.append((("num", "frames"), "mrcal_num_states_frames(%d,sel)" % pr.Nf))
    q.append((("num", "points"), "mrcal_num_states_points(%d,%d,sel)" % (pr.Np, pr.Npf)))
    q.append((("num", "calobject_warp"), "mrcal_num_states_calobject_warp(sel,%d)" % nb))
    q.append((("num", "intrinsics1"), "mrcal_num_intrinsics_optimization_params(sel,&lm)"))
    q.append((("num", "params"), "mrcal_lensmodel_num_params(&lm)"))
    return q


def expected_states(pr):
    """[(kind, item, [variables])] in the documented order: intrinsics, extrinsics, frames, points, warp"""
    s = pr.sel
    out = []
    ncore = 0 if pr.model.startswith("CAHVOR_none") else 4
    for c in range(pr.Nci):
        v = []
        if s["do_optimize_intrinsics_core"]:
            v += [("i", c * pr.nparams + k) for k in range(ncore)]
        if s["do_optimize_intrinsics_distortions"]:
            v += [("i", c * pr.nparams + k) for k in range(ncore, pr.nparams)]
        out.append(("intrinsics", c, v))
    for c in range(pr.Nce if s["do_optimize_extrinsics"] else 0):
        out.append(("extrinsics", c, [("rc", 6 * c + k) for k in range(6)]))
    if s["do_optimize_frames"]:
        for f in range(pr.Nf):
            out.append(("frames", f, [("rf", 6 * f + k) for k in range(6)]))
        for p in range(pr.Np - pr.Npf):
            out.append(("points", p, [("pt", 3 * p + k) for k in range(3)]))
    if s["do_optimize_calobject_warp"] and pr.boards:
        out.append(("calobject_warp", 0, [("w", 0), ("w", 1)]))
    return [x for x in out if x[2]]


def lays(s, pr):
    v = ints(s, "lay", len(pr.queries))
    if None in v:
        raise AnalysisError("%s: the answer to %s is not constant" % (pr.name, pr.queries[v.index(None)][1]))
    return {q[0]: x for q, x in zip(pr.queries, v)}


def c07(ctx):
    ctx.rule("state-layout: the variables the optimizer callback packs into b are, in order, the documented blocks; every "
             "mrcal_state_index_*() and mrcal_num_states_*() answer is the position and size of its block there, and -1/0 for what is "
             "not optimized or out of range")
    prs = small_problems(ctx.thorough)
    for p in prs:
        p.jt = False
        p.queries = state_queries(p)
    F = optlib.build("c07", prs)
    ctx.parallel(_c07_one, [(p, F) for p in prs])
    ctx.require("problems", len(prs))
    ctx.require("queries", 500)


def _c07_one(ctx, item):
    pr, F = item
    terms.reset()
    s = evaluate(pr, F)
    ctx.count("problems")
    nm = pr.name
    check_calls(ctx, "C07:" + nm, "problem '%s'" % nm, s)
    info = ints(s, "info", 3)
    n = info[0]
    b = states(ctx, pr, s, n, "C07")
    if b is None:
        return
    have = [tuple(atom_key(a)[1:3]) for a, _ in b]
    exp = expected_states(pr)
    want = [v for _, _, vs in exp for v in vs]
    what = "problem '%s' (%s)" % (nm, describe(pr))
    if have != want:
        k = next((k for k, (x, y) in enumerate(zip(have, want)) if x != y), min(len(have), len(want)))
        ctx.violation("C07:%s:order" % nm, "%s: state %d of the packed state is %s, the documented layout has %s there (%d states, %d expected)" % (
            what, k, have[k:k + 1], want[k:k + 1], n, len(want)))
        return
    pos, at, num = 0, {}, {}
    for kind, it, vs in exp:
        at[kind, it] = pos
        num[kind] = num.get(kind, 0) + len(vs)
        pos += len(vs)
    for (q, x), (_, text) in zip(lays(s, pr).items(), pr.queries):
        ctx.count("queries")
        if q[0] == "index":
            w = at.get(q[1:], -1)
        elif q[1] == "params":
            w = pr.nparams
        elif q[1] == "intrinsics1":
            w = num.get("intrinsics", 0) // max(pr.Nci, 1)
        else:
            w = num.get(q[1], 0)
        if x != w:
            ctx.violation("C07:%s:%s" % (nm, ":".join(map(str, q))), "%s: %s returns %d, the packed state has %d" % (what, text.split("(")[0] + "(%s)" % ",".join(map(str, q[2:])), x, w))
    ctx.sample({"problem": nm, "states": n})


def describe(pr):
    return "%s, %d+%d cameras, %d frames, %d points; off: %s" % (pr.model, pr.Nci, pr.Nce, pr.Nf, pr.Np, ",".join(k for k in ALL if not pr.sel[k]))


def meas_queries(pr):
    nb, npt, nt = len(pr.boards), len(pr.points), len(pr.tri)
    q = []
    for k in range(nb if nb else 1):
        q.append((("index", "boards", k), "mrcal_measurement_index_boards(%d,%d,%d,%d,%d)" % (k, nb, npt, pr.W, pr.H)))
    for k in range(npt if npt else 1):
        q.append((("index", "points", k), "mrcal_measurement_index_points(%d,%d,%d,%d,%d)" % (k, nb, npt, pr.W, pr.H)))
    nsets = sum(t[2] for t in pr.tri)
    for k in range(max(nsets, 1)):
        q.append((("index", "tri", k), "mrcal_measurement_index_points_triangulated(%d,%d,%d,tri,%d,%d,%d)" % (k, nb, npt, nt, pr.W, pr.H)))
    q.append((("index", "reg", 0), "mrcal_measurement_index_regularization(tri,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,sel,&lm)" % (
        nt, pr.W, pr.H, pr.Nci, pr.Nce, pr.Nf, pr.Np, pr.Npf, nb, npt)))
    q.append((("num", "boards"), "mrcal_num_measurements_boards(%d,%d,%d)" % (nb, pr.W, pr.H)))
    q.append((("num", "points"), "mrcal_num_measurements_points(%d)" % npt))
    q.append((("num", "tri"), "mrcal_num_measurements_points_triangulated(tri,%d)" % nt))
    q.append((("num", "reg"), "mrcal_num_measurements_regularization(%d,%d,%d,%d,%d,%d,sel,&lm)" % (pr.Nci, pr.Nce, pr.Nf, pr.Np, pr.Npf, nb)))
    return q
    # decoding of triangulated measurements is queried separately


def reference(pr):
    """C text computing the pixel of every corner and point observation with the library's public functions"""
    n = pr.name
    t = "double P0[3],p1[3],p2[3]; mrcal_point2_t q; "
    k = 0

    def proj(ci, ce, src):
        s = ""
        if ce >= 0:
            s += "mrcal_transform_point_rt(p2,NULL,NULL,%s_rc+%d,%s);" % (n, 6 * ce, src)
            src = "p2"
        return s + "mrcal_project(&q,NULL,NULL,(const mrcal_point3_t*)%s,1,&lm,%s_i+%d);" % (src, n, ci * pr.nparams)
    for ci, ce, f in pr.boards:
        for r in range(pr.H):
            for c in range(pr.W):
                t += "P0[0]=%r;P0[1]=%r;P0[2]=0;" % (c * 0.2, r * 0.2)
                if pr.warp:
                    x, y = 2 * c / (pr.W - 1.) - 1, 2 * r / (pr.H - 1.) - 1
                    t += "P0[2]=%s_w[0]*%r+%s_w[1]*%r;" % (n, 1 - x * x, n, 1 - y * y)
                t += "mrcal_transform_point_rt(p1,NULL,NULL,%s_rf+%d,P0);" % (n, 6 * f) + proj(ci, ce, "p1")
                t += "%s_r[%d]=q.x;%s_r[%d]=q.y;\n" % (n, k, n, k + 1)
                k += 2
    for ci, ce, p in pr.points:
        t += proj(ci, ce, "(%s_pt+%d)" % (n, 3 * p)) + "%s_r[%d]=q.x;%s_r[%d]=q.y;\n" % (n, k, n, k + 1)
        k += 2
    return t.replace("{", "{{").replace("}", "}}")


def decode_queries(pr, nm):
    txt = "int o0,o1,p0,No,Nm,ip; "
    k0 = len(pr.queries)
    qs = []
    for m in range(nm + 1):
        txt += "%s_lay[%d]=mrcal_decode_observation_indices_points_triangulated(&o0,&o1,&p0,&No,&Nm,&ip,%d,tri,%d);" % ("{n}", k0 + len(qs), m, len(pr.tri))
        qs.append((("dec", m, "ok"), None))
        for v in ("o0", "o1", "p0", "No", "Nm", "ip") if m < nm else ():
            txt += "%s_lay[%d]=%s;" % ("{n}", k0 + len(qs), v)
            qs.append((("dec", m, v), None))
    return txt, qs


def c08(ctx):
    ctx.rule("measurement-layout: measurement rows at each mrcal_measurement_index_*() depend on exactly the observation, camera, frame, "
             "point (or regularized parameter) they are documented to describe; the blocks tile the measurement vector; "
             "sizes agree; triangulated measurement decoding is the inverse of the pair enumeration; outliers give 0")
    prs = [p for p in small_problems(ctx.thorough) if p.model != "CAHVORE"]
    for p in prs:
        p.jt = False
        p.queries = meas_queries(p)
        p.before = reference(p)
        if p.tri:
            txt, qs = decode_queries(p, sum(n * (n - 1) // 2 for n in tri_sets(p)))
            p.before += txt
            p.queries = p.queries + qs
    F = optlib.build("c08", prs)
    for sizes in ((2, 1, 3), (4, 2, 5), (6, 7), (3, 10)):
        for w in decode_wrappers("dec_" + "_".join(map(str, sizes)), sizes):
            D[w[0]] = w
    G = genlib.build("c08dec", [w[1] for w in D.values()], front.lib_sources(), optlib.PRE, nch=8)
    ctx.parallel(_c08_any, [("row", p, F) for p in prs] + [("dec", n, G[n]) for n in D])
    ctx.require("problems", len(prs))
    ctx.require("rows", 500)
    ctx.require("decoded", 100)


D = {}


def decode_wrappers(name, sizes):
    """One function per measurement of triangulated points observed sizes[0], sizes[1].. times: (name, text, sizes, m, expected)"""
    rows = []
    for n in sizes:
        rows += ["{.last_in_set=%d}" % (k == n - 1) for k in range(n)]
    want, i0 = [], 0
    for ip, n in enumerate(sizes):
        want += [[1, i0 + a, i0 + b, i0, n, n * (n - 1) // 2, ip] for a in range(n) for b in range(a + 1, n)]
        i0 += n
    out = []
    for m, w in enumerate(want + [None]):
        nm = "%s_m%d" % (name, m)
        t = ("extern volatile int %s_lay[];\nvoid %s(void){static const mrcal_observation_point_triangulated_t tri[]={%s};int o0=0,o1=0,p0=0,No=0,Nm=0,ip=0;\n"
             "%s_lay[0]=mrcal_decode_observation_indices_points_triangulated(&o0,&o1,&p0,&No,&Nm,&ip,%d,tri,%d);" % (nm, nm, ",".join(rows), nm, m, len(rows)))
        if w is not None:
            t += "".join("%s_lay[%d]=%s;" % (nm, 1 + j, v) for j, v in enumerate(("o0", "o1", "p0", "No", "Nm", "ip")))
        out.append((nm, (nm, t + "}\n"), sizes, m, w))
    return out


def _c08_any(ctx, item):
    if item[0] == "row":
        return _c08_one(ctx, item[1:])
    _, name, f = item
    terms.reset()
    _, _, sizes, m, w = D[name]
    s = genlib.Sum(f, name + "_", unroll_by=sum(sizes) + 2)
    if s.overflowed():
        raise AnalysisError(name + ": a loop runs more often than expected")
    check_calls(ctx, "C08:dec", name, s)
    ctx.count("decoded")
    g = ints(s, "lay", 7 if w else 1)
    if g[0] is not None:
        g[0] &= 1
    if w is None:
        if g[0] is None or g[0]:
            ctx.violation("C08:decode:end", "mrcal_decode_observation_indices_points_triangulated() accepts a measurement past the end")
    elif g != w:
        ctx.violation("C08:decode", "mrcal_decode_observation_indices_points_triangulated(measurement %d of points seen %s times): got "
                      "(ok,obs0,obs1,first,Nobs,Nmeas,point)=%s, expected %s" % (m, sizes, g, w))


def tri_sets(pr):
    out, n = [], 0
    for t in pr.tri:
        n += 1
        if t[2]:
            out.append(n)
            n = 0
    return out


def inputs_of(t, I, cache):
    """Input variables a term depends on, along the path of an interpretation point"""
    t = localize(on_path(t, I, cache), I, cache)
    return {tuple(atom_key(a)[1:3]) for a in atoms_of(t) if atom_key(a)[0] == "var"}


def _c08_one(ctx, item):
    pr, F = item
    terms.reset()
    s = evaluate(pr, F)
    ctx.count("problems")
    nm = pr.name
    what = "problem '%s' (%s)" % (nm, describe(pr))
    check_calls(ctx, "C08:" + nm, what, s)
    info = ints(s, "info", 3)
    m = info[1]
    x = s.out("x", m)
    for r, t in enumerate(x):
        if t is None:
            ctx.violation("C08:%s:x" % nm, "%s: measurement %d of %d is not written" % (what, r, m))
            return
    lay = lays(s, pr)
    WH = pr.W * pr.H
    # expected block starts
    at, num, pos = {}, {}, 0
    rows = []           # (description, must-have inputs, allowed inputs, weight variable)

    def cam(ci, ce):
        r = {("i", ci * pr.nparams + k) for k in range(pr.nparams)}
        if ce >= 0:
            r |= {("rc", 6 * ce + k) for k in range(6)}
        return r
    for k, (ci, ce, f) in enumerate(pr.boards):
        at["boards", k] = pos
        for c in range(WH):
            o = 3 * (k * WH + c)
            for xy in range(2):
                rows.append(("board observation %d, corner %d, %s" % (k, c, "xy"[xy]), {("ob", o + xy), ("ob", o + 2), ("i", ci * pr.nparams + 2 + xy), ("rf", 6 * f + 3 + xy), ("rf", 6 * f + 5)} |
                             ({("rc", 6 * ce + 3 + xy)} if ce >= 0 else set()),
                             cam(ci, ce) | {("rf", 6 * f + j) for j in range(6)} | {("w", 0), ("w", 1)}, ("ob", o + 2)))
                pos += 1
    num["boards"] = pos
    p0 = pos
    for k, (ci, ce, p) in enumerate(pr.points):
        at["points", k] = pos
        for xy in range(2):
            rows.append(("point observation %d, %s" % (k, "xy"[xy]), {("op", 3 * k + xy), ("op", 3 * k + 2), ("i", ci * pr.nparams + 2 + xy), ("pt", 3 * p + xy), ("pt", 3 * p + 2)} |
                         ({("rc", 6 * ce + 3 + xy)} if ce >= 0 else set()),
                         cam(ci, ce) | {("pt", 3 * p + j) for j in range(3)}, ("op", 3 * k + 2)))
            pos += 1
    num["points"] = pos - p0
    p0 = pos
    i0 = 0
    dec = []
    for k, nset in enumerate(tri_sets(pr)):
        at["tri", k] = pos
        for a in range(nset):
            for c in range(a + 1, nset):
                A, C = pr.tri[i0 + a], pr.tri[i0 + c]
                ext = {("rc", 6 * t[1] + j) for t in (A, C) if t[1] >= 0 for j in range(6)}
                outl = A[3] or C[3]
                must = set() if outl or A[1] == C[1] else {("rc", 6 * t[1] + j) for t in (A, C) if t[1] >= 0 for j in range(6)}
                rows.append(("triangulated point %d, observations %d and %d" % (k, a, c), must, ext, "out" if outl else None))
                dec.append(dict(ok=1, o0=i0 + a, o1=i0 + c, p0=i0, No=nset, Nm=nset * (nset - 1) // 2, ip=k))
                pos += 1
        i0 += nset
    num["tri"] = pos - p0
    nreg = m - pos
    at["reg", 0] = pos if nreg > 0 else -1
    num["reg"] = nreg
    for (q, v), (_, text) in zip(lay.items(), pr.queries):
        ctx.count("queries")
        if q[0] == "dec":
            w = dec[q[1]][q[2]] if q[1] < len(dec) else 0
            if q[2] == "ok":
                v = v & 1
            text = "mrcal_decode_observation_indices_points_triangulated(%d) %s" % (q[1], q[2])
        else:
            w = at.get(q[1:], -1) if q[0] == "index" else num[q[1]]
        if v != w:
            ctx.violation("C08:%s:%s" % (nm, ":".join(map(str, q))), "%s: %s is %d, expected %d" % (what, text, v, w))
            if q[0] != "dec":
                return
    if nreg < 0:
        ctx.violation("C08:%s:num" % nm, "%s: %d measurements, at least %d expected" % (what, m, pos))
        return
    for seed in (2, 3):
        pt = interp_points(pr, seed)
        I = SmallInterp(seed, pt)
        cache = {}
        seen_reg = {}
        for r in range(m):
            ctx.count("rows")
            if r >= pos:
                ins = inputs_of(x[r], I, cache)
                bad = [v for v in ins if v[0] not in ("i", "rc")]
                if bad:
                    ctx.violation("C08:%s:reg" % nm, "%s: regularization measurement %d depends on %s" % (what, r, bad[:3]))
                    return
                if not ins:
                    ctx.violation("C08:%s:reg0" % nm, "%s: regularization measurement %d is constant" % (what, r))
                    return
                seen_reg.setdefault(tuple(sorted(ins)), []).append(r)
                continue
            desc, must, may, w = rows[r]
            if isinstance(w, tuple) and pt.get(w, 1) < 0 or w == "out":
                v = on_path(x[r], I, cache)
                if not v.is_zero():
                    ctx.violation("C08:%s:outlier" % nm, "%s: measurement %d (%s) is an outlier, but its residual is %s" % (what, r, desc, show(v, 1, 3)))
                    return
                continue
            ins = inputs_of(x[r], I, cache)
            lost = [v for v in must if v not in ins]
            extra = [v for v in ins if v not in may | must]
            if lost or extra:
                ctx.violation("C08:%s:row" % nm, "%s: measurement %d must be %s, but %s" % (
                    what, r, desc, "; ".join((["does not depend on %s[%s]" % v for v in lost] + ["depends on %s[%s]" % tuple(v[:2]) for v in extra])[:4])))
                return
            # residual = weight * (projection - observation)
            if isinstance(w, tuple):
                ob = (w[0], w[1] - 2 + (r & 1))
                xr = localize(on_path(x[r], I, cache), I, cache)
                ref = s.at("r", r)
                if ref is None:
                    raise AnalysisError("%s: the reference projection of %s was not evaluated" % (nm, desc))
                ref = (localize(on_path(ref, I, cache), I, cache) - var(*ob)) * var(*w)
                ctx.count("residuals_compared")
                if (ref - xr).is_zero():
                    ctx.count("discharged_by_normal_form")
                    continue
                u, v = I.ev(xr), I.ev(ref)
                if u != u or v != v or abs(u - v) > 1e-9 * max(abs(u), abs(v), 1):
                    ctx.violation("C08:%s:residual" % nm, "%s: measurement %d (%s) is %s where weight*(projection-observation) is %s" % (
                        what, r, desc, float(u), float(v)))
                    return
                ctx.count("discharged_by_random_interpretation")
    ctx.sample({"problem": nm, "measurements": m, "regularization": nreg})


def c09(ctx):
    ctx.rule("pack-unpack: mrcal_pack_solver_state_vector() divides each state element by the scale the optimizer callback uses for the same "
             "element, mrcal_unpack_solver_state_vector() multiplies by it, and both touch exactly the state vector")
    prs = small_problems(ctx.thorough)
    for p in prs:
        p.jt = False
        a = "%d,%d,%d,%d,%d,%d,sel,&lm" % (p.Nci, p.Nce, p.Nf, p.Np, p.Npf, len(p.boards))
        p.before = "mrcal_pack_solver_state_vector({n}_u,%s); mrcal_unpack_solver_state_vector({n}_v,%s);" % (a, a)
    F = optlib.build("c09", prs)
    ctx.parallel(_c09_one, [(p, F) for p in prs])
    ctx.require("problems", len(prs))
    ctx.require("elements", 500)


def _c09_one(ctx, item):
    pr, F = item
    terms.reset()
    s = evaluate(pr, F)
    ctx.count("problems")
    nm = pr.name
    what = "problem '%s' (%s)" % (nm, describe(pr))
    check_calls(ctx, "C09:" + nm, what, s)
    n = ints(s, "info", 1)[0]
    b = states(ctx, pr, s, n, "C09")
    if b is None:
        return
    for arr in "uv":
        for off, size, a in s.written(arr):
            c = off.const()
            if c is None:
                raise AnalysisError("%s: packing writes at a non-constant offset" % nm)
            if c < 0 or c + size > 8 * n:
                ctx.violation("C09:%s:%s:bounds" % (nm, arr), "%s: %s writes at byte %d of a state of %d elements (%s)" % (
                    what, "packing" if arr == "u" else "unpacking", c, n, a.inst.where()))
                return
    for k in range(n):
        sc = b[k][1]
        name = "%s[%s]" % atom_key(b[k][0])[1:3]
        for arr, f, fname in (("u", P(sc), "mrcal_pack_solver_state_vector"), ("v", terms.inv(P(sc)), "mrcal_unpack_solver_state_vector")):
            ctx.count("elements")
            t = s.at(arr, k)
            if t is None:
                t = var(arr, k)          # not written: unchanged
            d = t - f * var(arr, k)
            if any(abs(float(c)) > 1e-12 * abs(float(f.const())) for c in d.t.values()):
                ctx.violation("C09:%s:%s" % (nm, arr), "%s: %s() turns state %d (%s) into %s; the optimizer's scale gives %s" % (
                    what, fname, k, name, show(t, 1, 3), show(f * var(arr, k), 1, 3)))
                return
    ctx.sample({"problem": nm, "states": n})


# ------------------------------------------------------------------ C10
def c10(ctx):
    ctx.rule("optimizer-jacobian: for each small problem (fixed structure, symbolic numbers) every stored Jacobian entry equals the formal "
             "derivative of the value number of its measurement with respect to its packed state element; every entry not stored has "
             "derivative 0; sparse structure well-formed and of the announced size")
    prs = problems(ctx.thorough)
    F = optlib.build("c10", prs)
    ctx.parallel(_c10_one, [(p, F) for p in prs])
    ctx.require("problems", len(prs))
    ctx.require("jacobian_entries", 3000)


def _c10_one(ctx, item):
    pr, F = item
    terms.reset()
    s = evaluate(pr, F)
    ctx.count("problems")
    nm = pr.name
    check_calls(ctx, "C10:" + nm, "problem '%s'" % nm, s)
    info = ints(s, "info", 3)
    if None in info:
        raise AnalysisError("%s: problem size is not constant" % nm)
    n, m, nz = info
    b = states(ctx, pr, s, n, "C10")
    if b is None:
        return
    x = s.out("x", m)
    for r, t in enumerate(x):
        if t is None:
            ctx.violation("C10:%s:x" % nm, "problem '%s': measurement %d of %d is not written" % (nm, r, m))
            return
    for name, lim, el in (("b", n, 8), ("x", m, 8), ("Jx", nz, 8), ("Ji", nz, 4), ("Jp", m + 1, 4)):
        for off, size, a in s.written(name):
            c = off.const()
            if c is None:
                raise AnalysisError("%s: %s written at a non-constant offset" % (nm, name))
            ctx.count("stores")
            if c < 0 or c + size > lim * el:
                ctx.violation("C10:%s:%s:bounds" % (nm, name), "problem '%s': write to %s at byte %d, outside its %d elements (%s)" % (nm, name, c, lim, a.inst.where()))
                return
    J = {}
    if pr.jt:
        jp = ints(s, "Jp", m + 1)
        if None in jp or jp[0] != 0 or jp[-1] != nz or any(p > q for p, q in zip(jp, jp[1:])):
            ctx.violation("C10:%s:Jp" % nm, "problem '%s': the Jacobian row pointers %s do not run from 0 up to the announced %d nonzeros" % (nm, jp, nz))
            return
        dyn = []
        ji = ints(s, "Ji", nz)
        jx = s.out("Jx", nz)
        for r in range(m):
            for k in range(jp[r], jp[r + 1]):
                if s.at("Ji", k, 4) is None or jx[k] is None:
                    ctx.violation("C10:%s:Ji" % nm, "problem '%s': Jacobian entry %d (measurement %d) is not written" % (nm, k, r))
                    return
                if ji[k] is None:
                    dyn.append((r, k))
                    continue
                if not 0 <= ji[k] < n:
                    ctx.violation("C10:%s:Ji" % nm, "problem '%s': measurement %d has a Jacobian entry in column %d of %d" % (nm, r, ji[k], n))
                    return
                if (r, ji[k]) in J:
                    ctx.violation("C10:%s:Jdup" % nm, "problem '%s': measurement %d has two Jacobian entries for state %d" % (nm, r, ji[k]))
                    return
                J[r, ji[k]] = jx[k]
        ctx.count("jacobian_entries", nz)
    else:
        full = dict((p.name, p) for p in problems(False))["all"]
        y = evaluate(full, F).out("x", m)
        for seed in (2, 3):
            I = SmallInterp(seed, interp_points(pr, seed))
            for r in range(m):
                ctx.count("obligations")
                if y[r] is None or not (y[r] - x[r]).is_zero() and abs(I.ev(y[r]) - I.ev(x[r])) > 1e-9:
                    ctx.violation("C10:nojt:x", "measurement %d differs when no Jacobian is requested" % r)
                    return
        return
    # derivatives along the path of each interpretation point
    for seed in (2, 3):
        pt = interp_points(pr, seed)
        I = SmallInterp(seed, pt)
        cache = {}
        dcache = {}
        Jp = dict(J)
        for r, k in dyn:
            col = I.ev(on_path(s.at("Ji", k, 4), I, cache))
            col = int(col) if col == col and col == int(col) else -1
            if not 0 <= col < n or (r, col) in Jp:
                ctx.violation("C10:%s:Ji" % nm, "problem '%s': measurement %d has a Jacobian entry in column %s of %d%s" % (
                    nm, r, col, n, " twice" if 0 <= col < n else ""))
                return
            Jp[r, col] = localize(on_path(jx[k], I, cache), I, cache)
        for r in range(m):
            xr = localize(on_path(x[r], I, cache), I, cache)
            for col in range(n):
                a, sc = b[col]
                d = diff_cached(xr, a, dcache) * terms.inv(P(sc))
                j = localize(on_path(Jp.get((r, col), ZERO), I, cache), I, cache)
                ctx.count("obligations")
                if (d - j).is_zero():
                    ctx.count("discharged_by_normal_form")
                    continue
                u, v = I.ev(d), I.ev(j)
                sz = max(abs(u), abs(v))
                if u != u or v != v or abs(u - v) > 1e-9 * sz + 1e-12:
                    where = "measurement %d, state %d (%s)" % (r, col, "%s[%s]" % atom_key(a)[1:3])
                    ctx.violation("C10:%s:J%s" % (nm, "" if (r, col) in Jp else ":missing"),
                                  "problem '%s': %s: Jacobian entry %s, derivative of the measurement is %s" % (
                                      nm, where, float(v) if (r, col) in Jp else "absent", float(u)))
                    return
                ctx.count("discharged_by_random_interpretation")
    ctx.sample({"problem": nm, "states": n, "measurements": m, "nonzeros": nz})


def diff_cached(p, a, cache):
    k = (a, p)
    r = cache.get(k)
    if r is None:
        r = cache[k] = diff(p, a)
    return r
