"""C01..C04, C06: the pose-transformation C API."""
import itertools
import math

import front
import poselib
import poseref
import posespec
import terms
from front import AnalysisError
from poselib import Req, Summary
from posespec import SPEC, flagsets, indices, size
from terms import (BDD, P, Poly, ZERO, MPInterp, Interp, atoms_of, conds_of, decide_equal, diff, show, show_cond,
                   subst, var)


def grads(spec):
    return [a for a in spec["args"] if a[0] == "grad"]


def outs(spec):
    return [a for a in spec["args"] if a[0] == "out"]


def ins(spec):
    return [a for a in spec["args"] if a[0] == "in"]


# ------------------------------------------------------------------ regimes
def rotation_inputs(spec):
    """Inputs that are (or start with) a Rodrigues vector"""
    return [a[1] for a in ins(spec) if a[2] in ((3,), (6,)) and (a[1].startswith("r"))]


def regimes(spec, flags, thorough=False):
    """Sample points spanning the operating regimes of the rotations: generic, small, tiny, near pi, near 2 pi.
    Only used to decide which combinations of branch outcomes are considered."""
    rs = rotation_inputs(spec)
    scales = [("generic", None), ("tiny", 1e-6), ("tiny", 1e-9), ("tiny", 1e-18), ("norm", 3.5),
              ("norm", 2 * math.pi - 1e-7)]
    if len(rs) > 1 and not thorough:
        scales = [("generic", None), ("tiny", 1e-6), ("tiny", 1e-9), ("tiny", 1e-12), ("norm", 3.5)]
    out = []
    for comb in itertools.product(scales, repeat=len(rs)):
        import random
        rng = random.Random(repr(comb))
        a = {}
        for x in ins(spec):
            for i in range(size(x[2])):
                a[(x[1], i)] = rng.uniform(0.3, 1.1) * (1 if rng.random() < 0.6 else -1)
        degenerate = False
        for n, (kind, s) in zip(rs, comb):
            if kind == "tiny":
                for i in range(3):
                    a[(n, i)] *= s
                degenerate = True
            elif kind == "norm":
                l = math.sqrt(sum(a[(n, i)] ** 2 for i in range(3)))
                for i in range(3):
                    a[(n, i)] *= s / l
                if s > 6:
                    degenerate = True
        out.append((degenerate, a))
    return out


def assignment(conds, point):
    I = MPInterp(3, point)
    return {i: I.cond(i) for i in conds}


def partitions(polys, spec, flags, thorough=False):
    """Distinct branch outcomes over the regimes: [(degenerate, assignment, point)] generic first"""
    cs = set()
    for p in polys:
        conds_of(p, cs)
    cs = sorted(cs)
    seen = {}
    for deg, pt in regimes(spec, flags, thorough):
        try:
            asg = assignment(cs, pt)
        except Exception:
            continue
        k = tuple(asg[c] for c in cs)
        if k not in seen or (seen[k][0] and not deg):
            seen[k] = (deg, asg, pt)
    return sorted(seen.values(), key=lambda x: x[0])


def nongate(asg):
    return ", ".join("%s%s" % ("" if v else "NOT ", show_cond(k, 1)[:90]) for k, v in list(asg.items())[:3])


def mp_close(a, b, point, tol):
    """Do the terms a, b agree at the given point within tol?"""
    I = MPInterp(3, point)
    x, y = I.ev(a), I.ev(b)
    if x != x or y != y:
        return False, (x, y)
    return abs(x - y) <= tol * max(1, abs(x), abs(y)), (x, y)


# ------------------------------------------------------------------ C01 strides
def c01(ctx):
    ctx.rule("strided-access: every memory access to an array argument lies at sum(index*its own stride) for an "
             "in-shape index, whatever the strides; strides <= 0 are replaced by the contiguous default; "
             "every element of every requested output is written on every path, no input is ever written")
    reqs = [Req(f, fl, strides="symbolic") for f in SPEC for fl in flagsets(SPEC[f])]
    built = poselib.build(reqs, "c01")
    for wi, (r, F) in enumerate(built):
        terms.reset()
        s = Summary(r, F, wi)
        ctx.count("functions_x_flags")
        pre = s.pre
        spec = r.spec
        kinds = {a[1]: a[0] for a in spec["args"]}
        # all accesses, by array
        by = {}
        for ac in s.ev.accesses:
            if isinstance(ac.base, tuple) and ac.base[0] == "global" and ac.base[1].startswith(pre):
                n = ac.base[1][len(pre):]
                if n.startswith("S_"):
                    continue
                by.setdefault(n, []).append(ac)
            elif ac.base == "null" or (isinstance(ac.base, tuple) and ac.base[0] in ("*", "val")):
                ctx.violation("C01:wild:%s" % r.label(), "%s: access through an unrelated pointer %r (%s)" % (
                    r.label(), ac.base, ac.inst.where()))
        for n, shape in s.shapes.items():
            accs = by.get(n, [])
            nd = len(shape)
            svars = [var("stride", "%s_%d" % (n, k)) for k in range(nd)]
            sids = [terms.atom(("var", "stride", "%s_%d" % (n, k))) for k in range(nd)]
            if not accs and kinds[n] != "in":
                ctx.violation("C01:unwritten:%s:%s" % (r.label(), n), "%s: output %s is never written" % (r.label(), n))
                continue
            # every combination of "given"/"default" per stride
            for given in itertools.product((True, False), repeat=nd):
                ctx.count("stride_cases")
                # effective strides
                eff = [None] * nd
                inner = P(8)
                for k in reversed(range(nd)):
                    if given[k]:
                        eff[k] = svars[k]
                    else:
                        eff[k] = P(8) if k == nd - 1 else eff[k + 1] * shape[k + 1]
                want = {}
                for ix in indices(shape):
                    o = sum((e * i for e, i in zip(eff, ix)), ZERO)
                    want[o] = ix
                written = {}
                point = {("stride", "%s_%d" % (n, k)): (1000.0 * (k + 1) + 7 * k if given[k] else -5.0) for k in range(nd)}
                for ac in accs:
                    if kinds[n] == "in" and ac.kind == "store":
                        ctx.violation("C01:input-written:%s:%s" % (r.label(), n),
                                      "%s writes to its input %s (%s)" % (r.label(), n, ac.inst.where()))
                        continue
                    for offv, cond in _cases_for(ac, point):
                        ctx.count("accesses")
                        if ac.size != 8 or offv not in want:
                            ctx.violation("C01:stride:%s:%s" % (r.label(), n),
                                          "%s: %s of %s at byte offset %s (%d bytes): not an element of the (%s) array with "
                                          "its own strides (%s) [%s]" % (
                                              r.label(), ac.kind, n, show(offv), ac.size, ",".join(map(str, shape)),
                                              ",".join("given" if g else "default" for g in given), ac.inst.where()))
                        elif ac.kind == "store":
                            ix = want[offv]
                            written[ix] = BDD.Or(written.get(ix, BDD.F), cond)
                if kinds[n] != "in":
                    for ix in indices(shape):
                        c = written.get(ix, BDD.F)
                        rest = _restrict(c, point)
                        if rest is not BDD.T:
                            ctx.violation("C01:incomplete:%s:%s" % (r.label(), n),
                                          "%s: element %s of output %s is not written on every path (strides %s)" % (
                                              r.label(), ix, n, ",".join("given" if g else "default" for g in given)))
                            break
                    ctx.count("output_elements", size(shape))
                if all(given) and kinds[n] == "in" and accs:
                    pass
        ctx.sample("%s: %d accesses" % (r.label(), sum(len(v) for v in by.values())))
    ctx.require("functions_x_flags", 30)
    ctx.require("accesses", 5000)
    ctx.assumptions.append("Strides reach the functions as unconstrained integers; each array occupies its own storage.")


def _stride_conds(conds):
    return [i for i in conds if any(terms.atom_key(a)[0] == "var" and terms.atom_key(a)[1] == "stride"
                                    for a in atoms_of(terms.BDD.conds[i][1]))] if conds else []


def _eval_stride_cond(i, point):
    """Truth of a comparison that only involves strides of one array at the point; None if it involves others"""
    k = BDD.conds[i]
    if k[0] not in ("pos", "ipos", "eq"):
        return None
    for a in atoms_of(k[1]):
        kk = terms.atom_key(a)
        if kk[0] == "var" and not (kk[1] == "stride" and kk[1:] in point):
            return None
    I = Interp(3, point)
    return I.cond(i)


def _restrict(c, point):
    """BDD with the stride comparisons decided at the point"""
    if c[0] != "N":
        return c
    memo = {}

    def go(x):
        if x[0] != "N":
            return x
        r = memo.get(x)
        if r is None:
            b = _eval_stride_cond(x[1], point)
            if b is not None:
                r = go(x[2] if b else x[3])
            else:
                r = BDD.ite(BDD.mk(x[1], BDD.T, BDD.F), go(x[2]), go(x[3]))
            memo[x] = r
        return r
    return go(c)


def _cases_for(ac, point):
    """Offsets of one access, with stride-comparison gates decided at the point"""
    cond = _restrict(ac.cond, point)
    if cond is BDD.F:
        return
    cs = conds_of(ac.off)
    asg = {}
    for i in cs:
        b = _eval_stride_cond(i, point)
        if b is not None:
            asg[i] = b
    off = subst(ac.off, {}, None, asg) if asg else ac.off
    yield off, cond


# ------------------------------------------------------------------ C02 in place
def c02(ctx):
    ctx.rule("in-place: with the output stored on top of an equally-shaped input, every output element and every "
             "gradient has the same value number as with separate storage")
    reqs = []
    for f, spec in SPEC.items():
        if not spec.get("inplace"):
            continue
        o = outs(spec)[0]
        cand = [a[1] for a in ins(spec) if a[2] == o[2]]
        al = [{}] + [{o[1]: c} for c in cand]
        for fl in flagsets(spec):
            for a in al:
                for st in (["default", "spaced"] if a else ["default"]):
                    for null in ((), tuple(g[1] for g in grads(spec))):
                        if null == () and not grads(spec) and False:
                            continue
                        if not a and st != "default":
                            continue
                        if null and not grads(spec):
                            continue
                        strides = "default"
                        if st == "spaced":
                            strides = {x[1]: tuple(2 * s for s in posespec.contiguous(x[2])) for x in spec["args"] if x[0] != "flag"}
                        reqs.append(Req(f, fl, null=null, alias=a, strides=strides))
    built = poselib.build(reqs, "c02")
    groups = {}
    for wi, (r, F) in enumerate(built):
        groups.setdefault((r.fname, tuple(sorted(r.flags.items()))), []).append((wi, r, F))
    for (fname, fl), lst in groups.items():
        terms.reset()
        base = {}
        for wi, r, F in lst:
            if not r.alias:
                s = Summary(r, F, wi)
                base[r.null] = {a[1]: s.out(a[1]) for a in r.spec["args"] if a[0] in ("out", "grad") and a[1] not in r.null}
        for wi, r, F in lst:
            if not r.alias:
                continue
            s = Summary(r, F, wi)
            ctx.count("aliased_calls")
            for a in r.spec["args"]:
                if a[0] not in ("out", "grad") or a[1] in r.null:
                    continue
                got = s.out(a[1])
                ref = base[r.null][a[1]]
                for k, (g, w) in enumerate(zip(got, ref)):
                    ctx.count("elements")
                    if g is None or w is None:
                        ctx.violation("C02:lost:%s:%s" % (r.label(), a[1]), "%s: %s[%d] is not written" % (r.label(), a[1], k))
                        break
                    if g == w:
                        continue
                    v = _same(g, w, r.spec, r.flags)
                    if v is not None:
                        ctx.violation("C02:inplace:%s:%s" % (r.label(), a[1]),
                                      "%s: %s[%d] differs from the result with separate storage: %s" % (r.label(), a[1], k, v))
                        break
    ctx.require("aliased_calls", 80)
    ctx.assumptions.append("The arrays coincide exactly (same start, same strides), as the documentation promises.")


def _same(g, w, spec, flags, pts=None):
    """None if the two gated terms agree, else a description"""
    if g == w:
        return None
    for deg, asg, pt in partitions([g, w], spec, flags):
        if pts is not None and not pts(deg):
            continue
        a, b = subst(g, {}, None, asg), subst(w, {}, None, asg)
        if a == b:
            continue
        st, wit = decide_equal(a, b, assume=None)
        if st == "differ":
            return "%s vs %s (when %s)" % (show(a, 1, 3), show(b, 1, 3), nongate(asg) or "always")
    return None


# ------------------------------------------------------------------ C03 optional outputs
def c03(ctx):
    ctx.rule("optional-outputs: with any gradient pointer NULL, nothing is dereferenced through it, and every other "
             "output has the same value number as when all gradients are requested")
    reqs = []
    for f, spec in SPEC.items():
        gs = [g[1] for g in grads(spec)]
        if not gs:
            continue
        subsets = {(), tuple(gs)}
        for g in gs:
            subsets.add((g,))
            subsets.add(tuple(x for x in gs if x != g))
        if ctx.thorough and len(gs) <= 6:
            for k in range(len(gs) + 1):
                for c in itertools.combinations(gs, k):
                    subsets.add(c)
        for fl in flagsets(spec):
            for n in sorted(subsets):
                reqs.append(Req(f, fl, null=n))
    built = poselib.build(reqs, "c03")
    groups = {}
    for wi, (r, F) in enumerate(built):
        groups.setdefault((r.fname, tuple(sorted(r.flags.items()))), []).append((wi, r, F))
    for (fname, fl), lst in groups.items():
        terms.reset()
        base = None
        for wi, r, F in lst:
            if not r.null:
                s = Summary(r, F, wi)
                base = {a[1]: s.out(a[1]) for a in r.spec["args"] if a[0] in ("out", "grad")}
        for wi, r, F in lst:
            if not r.null:
                continue
            s = Summary(r, F, wi)
            ctx.count("null_combinations")
            for ac in s.ev.accesses:
                if ac.base == "null":
                    ctx.violation("C03:nullderef:" + r.label(), "%s: dereferences a NULL gradient pointer (%s)" % (r.label(), ac.inst.where()))
            for b in F.blocks:
                if b.insts[-1].op == "unreachable":
                    if b in s.ev.reach and s.ev.reach[b] is not BDD.F and not _noreturn_call(b):
                        ctx.violation("C03:nullderef:" + r.label(), "%s: a path dereferences a NULL gradient pointer (%s)" % (r.label(), b.insts[-1].where()))
            for a in r.spec["args"]:
                if a[0] not in ("out", "grad") or a[1] in r.null:
                    continue
                got = s.out(a[1])
                for k, (g, w) in enumerate(zip(got, base[a[1]])):
                    ctx.count("elements")
                    if g is None or w is None:
                        ctx.violation("C03:lost:%s:%s" % (r.label(), a[1]), "%s: %s[%d] is not written" % (r.label(), a[1], k))
                        break
                    v = _same(g, w, r.spec, r.flags)
                    if v is not None:
                        ctx.violation("C03:value:%s:%s" % (r.label(), a[1]), "%s: %s[%d] differs from the value with all gradients requested: %s" % (r.label(), a[1], k, v))
                        break
    ctx.require("null_combinations", 60)


def _noreturn_call(b):
    import ir
    return any(i.op == "call" and (ir.callee_name(i) or "") in ("__assert_fail", "abort", "exit", "__cxa_throw") for i in b.insts)


# ------------------------------------------------------------------ C04 gradients
def c04(ctx):
    ctx.rule("gradient: each reported gradient element is the formal derivative of the value number of the reported "
             "result; in a limiting branch (tiny rotation) it is that, or it agrees with the general branch there")
    fns = [f for f in SPEC if grads(SPEC[f]) and f not in ("mrcal_r_from_R_full", "mrcal_rt_from_Rt_full")]
    reqs = [Req(f, fl) for f in fns for fl in flagsets(SPEC[f])]
    ctx.count("functions_x_flags", len(reqs))
    items = [(wi, r, F, g) for wi, (r, F) in enumerate(poselib.build(reqs, "c04")) for g in grads(r.spec)]
    items.sort(key=lambda x: "compose" not in x[1].fname)
    ctx.parallel(_c04_one, items)
    _c04_tiny(ctx)
    ctx.require("functions_x_flags", 18)
    ctx.require("obligations", 500)
    ctx.assumptions.append("Real arithmetic; functions are differentiated inside each branch region.")


def _c04_one(ctx, item):
    wi, r, F, g = item
    terms.reset()
    s = Summary(r, F, wi)
    ctx.count("gradients")
    vals = {a[1]: s.out(a[1]) for a in r.spec["args"] if a[0] in ("out", "grad")}
    bad = [n for n, v in vals.items() if any(x is None for x in v)]
    if bad:
        for n in bad:
            ctx.violation("C04:unwritten:%s:%s" % (r.label(), n), "%s: %s is not completely written" % (r.label(), n))
        return
    allp = [x for v in vals.values() for x in v]
    parts = partitions(allp, r.spec, r.flags, ctx.thorough)
    ctx.count("branch_combinations", len(parts))
    gen = parts[0]
    if gen[0]:
        raise AnalysisError("no generic branch in " + r.label())
    caches = [{} for _ in parts]

    def res(p, k):
        return subst(p, {}, caches[k], parts[k][1])
    hopeless = 0
    if True:
        _, gn, gs, on, osl, inn, isl = g
        no, ni = osl[1] - osl[0], isl[1] - isl[0]
        failed = False
        for oi, ii in itertools.product(range(no), range(ni)):
            v = terms.atom(("var", inn, isl[0] + ii))
            y, j = vals[on][osl[0] + oi], vals[gn][oi * ni + ii]
            for k, (deg, asg, pt) in enumerate(parts):
                ctx.count("obligations")
                d, jj = diff(res(y, k), v), res(j, k)
                st, w = decide_equal(d, jj, budget=0 if hopeless > 3 and not ctx.thorough else 300000)
                if st == "unproved":
                    hopeless += 1
                if st == "equal":
                    ctx.count("discharged_by_normal_form")
                    continue
                if deg:
                    jg = res(j, 0)
                    ok, w2 = mp_close(jj, jg, pt, 1e-9)
                    if ok:
                        ctx.count("discharged_by_limit")
                        continue
                    # or agrees with the derivative of the general branch
                    ok, w2 = mp_close(jj, diff(res(y, 0), v), pt, 1e-9)
                    if ok:
                        ctx.count("discharged_by_limit")
                        continue
                    if st == "unproved":
                        ctx.count("discharged_by_random_interpretation")
                        continue
                if st == "unproved":
                    ctx.count("discharged_by_random_interpretation")
                    continue
                if not failed:
                    ctx.violation("C04:gradient:%s:%s" % (r.label(), gn),
                                  "%s: %s[%d,%d] is not d %s[%d]/d %s[%d]: reported %s, derivative %s (when %s)" % (
                                      r.label(), gn, oi, ii, on, osl[0] + oi, inn, isl[0] + ii,
                                      show(jj, 1, 3), show(d, 1, 3), nongate(asg) or "always"))
                failed = True
                break
    ctx.sample("%s %s" % (r.label(), g[1]))


def _c04_tiny(ctx):
    """compose_r_tinyr{0,1}_gradientr{0,1}: the gradient of the composition at a zero rotation"""
    reqs = [Req("mrcal_compose_r_full", {"inverted0": 0, "inverted1": 0}),
            Req("mrcal_compose_r_tinyr0_gradientr0_full", {}), Req("mrcal_compose_r_tinyr1_gradientr1_full", {})]
    b = poselib.build(reqs, "c04t")
    for which in (0, 1):
        terms.reset()
        full = Summary(b[0][0], b[0][1], 0)
        tiny = Summary(b[1 + which][0], b[1 + which][1], 1 + which)
        zero, other = ("r_0", "r_1") if which == 0 else ("r_1", "r_0")
        jn = "dr_dr%d" % which
        ref = full.out(jn)
        got = tiny.out(jn)
        for scale in (1.0, 1e-9):
            pt = {(other, i): (0.7, -0.4, 0.9)[i] * scale for i in range(3)}
            pf = dict(pt)
            for i in range(3):
                pf[(zero, i)] = (1e-30, 2e-30, -1e-30)[i]
            for k in range(9):
                ctx.count("obligations")
                if got[k] is None or ref[k] is None:
                    ctx.violation("C04:tiny:%d" % which, "the gradient element %d is not written" % k)
                    continue
                x = MPInterp(3, pt).ev(got[k])
                y = MPInterp(3, pf).ev(ref[k])
                if not abs(x - y) <= 1e-7:
                    ctx.violation("C04:tiny:%s" % reqs[1 + which].fname, "%s: element %d is %s, but the gradient of the composition at a zero rotation is %s" % (
                        reqs[1 + which].fname, k, float(x), float(y)))
                else:
                    ctx.count("discharged_by_limit")


# ------------------------------------------------------------------ C06 algebra
def c06(ctx):
    ctx.rule("pose-algebra: the value number of every result equals the defining formula (Rodrigues rotation, R x + t, "
             "matrix products, transposes, inverses), for every combination of inversion flags; a limiting branch agrees "
             "with the formula to 1e-9 where it is taken")
    reqs = [Req(f, fl) for f in SPEC for fl in flagsets(SPEC[f])]
    sums = {}
    for wi, (r, F) in enumerate(poselib.build(reqs, "c06")):
        terms.reset()
        s = Summary(r, F, wi)
        exp = poseref.expected(r.fname, r.flags)
        if exp:
            ctx.count("functions_x_flags")
        for n, want in exp.items():
            got = s.out(n)
            _compare(ctx, "C06:algebra:%s:%s" % (r.label(), n), r, n, got, want)
    _c06_compose_r(ctx)
    _c06_r_from_R(ctx)
    ctx.require("functions_x_flags", 25)


def _compare(ctx, key, r, n, got, want):
    for k, (g, w) in enumerate(zip(got, want)):
        if w is None:
            continue
        if g is None:
            ctx.violation(key, "%s: %s[%d] is not written" % (r.label(), n, k))
            return
        for deg, asg, pt in partitions([g], r.spec, r.flags, ctx.thorough):
            ctx.count("obligations")
            a = subst(g, {}, None, asg)
            st, wit = decide_equal(a, w)
            if st == "equal":
                ctx.count("discharged_by_normal_form")
                continue
            if deg and mp_close(a, w, pt, 1e-9)[0]:
                ctx.count("discharged_by_limit")
                continue
            if st == "unproved":
                ctx.count("discharged_by_random_interpretation")
                continue
            ctx.violation(key, "%s: %s[%d] is %s, should be %s (when %s)" % (
                r.label(), n, k, show(a, 1, 3), show(w, 1, 3), nongate(asg) or "always"))
            return


def _c06_compose_r(ctx):
    """The rotation part of compose_r and compose_rt: R(r_out) = R(r_0)^{+-1} R(r_1)^{+-1}, decided by interpreting
    both sides' terms at points of every branch region"""
    reqs = [Req(f, fl) for f in ("mrcal_compose_r_full", "mrcal_compose_rt_full") for fl in flagsets(SPEC[f])]
    for wi, (r, F) in enumerate(poselib.build(reqs, "c06c")):
        terms.reset()
        s = Summary(r, F, wi)
        on, a, b = ("r_out", "r_0", "r_1") if "compose_r_full" in r.fname else ("rt_out", "rt_0", "rt_1")
        got = s.out(on)[:3]
        if any(g is None for g in got):
            ctx.violation("C06:compose:" + r.label(), "%s: output not written" % r.label())
            continue
        X, Y = poseref.R_from_r(poseref.vec(a, 3)), poseref.R_from_r(poseref.vec(b, 3))
        X = poseref.T(X) if r.flags["inverted0"] else X
        Y = poseref.T(Y) if r.flags["inverted1"] else Y
        want = poseref.flat(poseref.mm(X, Y))
        o = poseref.vec("o", 3)
        Ro = poseref.flat(poseref.R_from_r(o))
        ctx.count("functions_x_flags")
        for deg, pt in regimes(r.spec, r.flags, ctx.thorough):
            ctx.count("obligations")
            I = MPInterp(3, pt)
            ov = [I.ev(g) for g in got]
            if all(v == 0 for v in ov):
                Rv = [1, 0, 0, 0, 1, 0, 0, 0, 1]
            else:
                J = MPInterp(3, {("o", i): ov[i] for i in range(3)})
                Rv = [J.ev(x) for x in Ro]
            Wv = [I.ev(w) for w in want]
            err = max(abs(x - y) for x, y in zip(Rv, Wv))
            if not err < 1e-6 if deg else not err < 1e-12:
                ctx.violation("C06:compose:" + r.label(), "%s: the composed rotation is not the product of the two rotations at %s (off by %s)" % (
                    r.label(), {"%s[%d]" % k: float(v) for k, v in pt.items() if k[1] < 3}, float(err)))
                break
            ctx.count("discharged_by_interpretation")


# coordinate axes, coordinate planes, generic octants, and every sign combination of a slight tilt off each coordinate
# axis: near 180 degrees the signs of the components come out of products of the small ones
R_FROM_R_AXES = ([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [0, 1, 1], [1, 0, 1], [1, -1, 0], [0, 1, -1], [-1, 0, 1],
                  [-1, 2, 3], [0, -1, 2], [-3, 0.01, 0.02], [0.02, -3, 0.01]] +
                 [[a if k == m else (b if k == (m + 1) % 3 else c) for k in range(3)]
                  for m in range(3) for a in (1, -1) for b in (0.03, -0.03) for c in (0.05, -0.05)] +
                 [[a, b, c] for a in (1, -1) for b in (0.6, -0.6) for c in (0.4, -0.4)])


def _c06_r_from_R(ctx):
    """r_from_R inverts R_from_r for every rotation angle in [0, pi]"""
    reqs = [Req("mrcal_r_from_R_full", {}), Req("mrcal_rt_from_Rt_full", {})]
    for wi, (r, F) in enumerate(poselib.build(reqs, "c06r")):
        terms.reset()
        s = Summary(r, F, wi)
        on, inn = ("r", "R") if wi == 0 else ("rt", "Rt")
        got = s.out(on)[:3]
        if any(g is None for g in got):
            ctx.violation("C06:r_from_R:" + r.label(), "%s: output not written" % r.label())
            continue
        ctx.count("functions_x_flags")
        Rr = poseref.flat(poseref.R_from_r(poseref.vec("q", 3)))
        import random
        rng = random.Random(11)
        npt = 0
        for ang in (0.0, 1e-12, 1e-6, 0.1, 0.5, 1.0, 1.5, 1.6, 2.0, 2.6, 3.0, 3.14, math.pi - 1e-6, math.pi - 1e-9, math.pi - 1e-12):
            for axis in R_FROM_R_AXES:
                ctx.count("obligations")
                l = math.sqrt(sum(x * x for x in axis))
                q = [x / l * ang for x in axis]
                if ang == 0:
                    Rv = [1, 0, 0, 0, 1, 0, 0, 0, 1]
                else:
                    J = MPInterp(3, {("q", i): q[i] for i in range(3)})
                    Rv = [J.ev(x) for x in Rr]
                pt = {(inn, i): Rv[i] for i in range(9)}
                I = MPInterp(3, pt)
                ov = [I.ev(g) for g in got]
                e1 = max(abs(x - y) for x, y in zip(ov, q))
                e2 = max(abs(x + y) for x, y in zip(ov, q))
                tol = 1e-7 if ang > 1e-9 else 1e-10
                err = min(e1, e2) if ang > math.pi - 1e-8 else e1
                if not err < tol:
                    ctx.violation("C06:r_from_R:" + r.label(), "%s does not recover the rotation vector %s from its matrix: %s" % (
                        r.label(), [round(x, 6) for x in q], [float(x) for x in ov]))
                    break
                ctx.count("discharged_by_interpretation")
            else:
                continue
            break
