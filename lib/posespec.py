"""The documented interface of the pose C API (poseutils.h), frozen from its documentation.

Each function: ordered arguments.
  ("out", name, shape) ("in", name, shape) ("flag", name)
  ("grad", name, shape, out, out_slice, in, in_slice): gradient of out[out_slice] w.r.t. in[in_slice];
       J[oi..., ii...] with the out indices first
Every array argument is followed in the C prototype by one int stride per dimension."""

S = slice


def A(n, *shape):
    return n, tuple(shape)


SPEC = {
    "mrcal_identity_R_full": dict(args=[("out", "R", (3, 3))]),
    "mrcal_identity_r_full": dict(args=[("out", "r", (3,))]),
    "mrcal_identity_Rt_full": dict(args=[("out", "Rt", (4, 3))]),
    "mrcal_identity_rt_full": dict(args=[("out", "rt", (6,))]),
    "mrcal_rotate_point_R_full": dict(inplace=True, args=[
        ("out", "x_out", (3,)),
        ("grad", "J_R", (3, 3, 3), "x_out", (0, 3), "R", (0, 9)),
        ("grad", "J_x", (3, 3), "x_out", (0, 3), "x_in", (0, 3)),
        ("in", "R", (3, 3)), ("in", "x_in", (3,)), ("flag", "inverted")]),
    "mrcal_rotate_point_r_full": dict(inplace=True, args=[
        ("out", "x_out", (3,)),
        ("grad", "J_r", (3, 3), "x_out", (0, 3), "r", (0, 3)),
        ("grad", "J_x", (3, 3), "x_out", (0, 3), "x_in", (0, 3)),
        ("in", "r", (3,)), ("in", "x_in", (3,)), ("flag", "inverted")]),
    "mrcal_transform_point_Rt_full": dict(inplace=True, args=[
        ("out", "x_out", (3,)),
        ("grad", "J_Rt", (3, 4, 3), "x_out", (0, 3), "Rt", (0, 12)),
        ("grad", "J_x", (3, 3), "x_out", (0, 3), "x_in", (0, 3)),
        ("in", "Rt", (4, 3)), ("in", "x_in", (3,)), ("flag", "inverted")]),
    "mrcal_transform_point_rt_full": dict(inplace=True, args=[
        ("out", "x_out", (3,)),
        ("grad", "J_rt", (3, 6), "x_out", (0, 3), "rt", (0, 6)),
        ("grad", "J_x", (3, 3), "x_out", (0, 3), "x_in", (0, 3)),
        ("in", "rt", (6,)), ("in", "x_in", (3,)), ("flag", "inverted")]),
    "mrcal_r_from_R_full": dict(args=[
        ("out", "r", (3,)),
        ("grad", "J", (3, 3, 3), "r", (0, 3), "R", (0, 9)),
        ("in", "R", (3, 3))]),
    "mrcal_R_from_r_full": dict(args=[
        ("out", "R", (3, 3)),
        ("grad", "J", (3, 3, 3), "R", (0, 9), "r", (0, 3)),
        ("in", "r", (3,))]),
    "mrcal_invert_R_full": dict(inplace=True, args=[("out", "R_out", (3, 3)), ("in", "R_in", (3, 3))]),
    "mrcal_rt_from_Rt_full": dict(args=[
        ("out", "rt", (6,)),
        ("grad", "J_R", (3, 3, 3), "rt", (0, 3), "Rt", (0, 9)),
        ("in", "Rt", (4, 3))]),
    "mrcal_Rt_from_rt_full": dict(args=[
        ("out", "Rt", (4, 3)),
        ("grad", "J_r", (3, 3, 3), "Rt", (0, 9), "rt", (0, 3)),
        ("in", "rt", (6,))]),
    "mrcal_invert_Rt_full": dict(inplace=True, args=[("out", "Rt_out", (4, 3)), ("in", "Rt_in", (4, 3))]),
    "mrcal_invert_rt_full": dict(inplace=True, args=[
        ("out", "rt_out", (6,)),
        ("grad", "dtout_drin", (3, 3), "rt_out", (3, 6), "rt_in", (0, 3)),
        ("grad", "dtout_dtin", (3, 3), "rt_out", (3, 6), "rt_in", (3, 6)),
        ("in", "rt_in", (6,))]),
    "mrcal_compose_Rt_full": dict(inplace=True, args=[
        ("out", "Rt_out", (4, 3)), ("in", "Rt_0", (4, 3)), ("in", "Rt_1", (4, 3)),
        ("flag", "inverted0"), ("flag", "inverted1")]),
    "mrcal_compose_rt_full": dict(inplace=True, args=[
        ("out", "rt_out", (6,)),
        ("grad", "dr_dr0", (3, 3), "rt_out", (0, 3), "rt_0", (0, 3)),
        ("grad", "dr_dr1", (3, 3), "rt_out", (0, 3), "rt_1", (0, 3)),
        ("grad", "dt_dr0", (3, 3), "rt_out", (3, 6), "rt_0", (0, 3)),
        ("grad", "dt_dr1", (3, 3), "rt_out", (3, 6), "rt_1", (0, 3)),
        ("grad", "dt_dt0", (3, 3), "rt_out", (3, 6), "rt_0", (3, 6)),
        ("grad", "dt_dt1", (3, 3), "rt_out", (3, 6), "rt_1", (3, 6)),
        ("in", "rt_0", (6,)), ("in", "rt_1", (6,)), ("flag", "inverted0"), ("flag", "inverted1")]),
    "mrcal_compose_r_full": dict(inplace=True, args=[
        ("out", "r_out", (3,)),
        ("grad", "dr_dr0", (3, 3), "r_out", (0, 3), "r_0", (0, 3)),
        ("grad", "dr_dr1", (3, 3), "r_out", (0, 3), "r_1", (0, 3)),
        ("in", "r_0", (3,)), ("in", "r_1", (3,)), ("flag", "inverted0"), ("flag", "inverted1")]),
    "mrcal_compose_r_tinyr0_gradientr0_full": dict(args=[
        ("out", "dr_dr0", (3, 3)), ("in", "r_1", (3,))]),
    "mrcal_compose_r_tinyr1_gradientr1_full": dict(args=[
        ("out", "dr_dr1", (3, 3)), ("in", "r_0", (3,))]),
}


def size(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def indices(shape):
    out = [()]
    for d in shape:
        out = [x + (i,) for x in out for i in range(d)]
    return out


def flagsets(spec):
    import itertools
    fl = [a[1] for a in spec["args"] if a[0] == "flag"]
    return [dict(zip(fl, v)) for v in itertools.product((0, 1), repeat=len(fl))]


def contiguous(shape):
    st = []
    n = 8
    for d in reversed(shape):
        st.append(n)
        n *= d
    return tuple(reversed(st))


def wrapper(fname, wname, flags, null=(), alias=None, strides="default"):
    """C text of a wrapper that calls fname on external global arrays.
    alias: {argname: other argname} (same storage).  strides: "default" (all 0), "symbolic" (external ints),
    or a dict name -> tuple"""
    spec = SPEC[fname]
    alias = alias or {}
    decl, call = [], []
    for a in spec["args"]:
        if a[0] == "flag":
            call.append("%d" % flags[a[1]])
            continue
        n, shape = a[1], a[2]
        if n in null:
            call.append("(double*)0")
        else:
            call.append("%s_%s" % (wname, alias.get(n, n)))
            if n not in alias:
                decl.append("extern double %s_%s[];" % (wname, n))
        for k in range(len(shape)):
            if strides == "symbolic":
                decl.append("extern int %s_S_%s_%d;" % (wname, n, k))
                call.append("%s_S_%s_%d" % (wname, n, k))
            elif strides == "default":
                call.append("0")
            else:
                call.append(str(strides[n][k]))
    return "\n".join(decl) + "\nvoid %s(void) { %s(%s); }\n" % (wname, fname, ", ".join(call))
