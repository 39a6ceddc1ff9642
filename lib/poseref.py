"""Reference formulas for rigid transformations, as terms."""
from fractions import Fraction

from terms import ONE, P, ZERO, fn, inv, sqrt, var


def vec(name, n, start=0):
    return [var(name, start + i) for i in range(n)]


def mat(name, start=0):
    return [[var(name, start + 3 * i + j) for j in range(3)] for i in range(3)]


def T(M):
    return [[M[j][i] for j in range(3)] for i in range(3)]


def mv(M, v):
    return [M[i][0] * v[0] + M[i][1] * v[1] + M[i][2] * v[2] for i in range(3)]


def mm(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(3)), ZERO) for j in range(3)] for i in range(3)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def neg(a):
    return [-x for x in a]


def flat(M):
    return [x for r in M for x in r]


def R_from_r(r):
    """Rodrigues"""
    rr = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
    th = sqrt(rr)
    s, c = fn("sin", th), fn("cos", th)
    a = s * inv(th)
    b = (ONE - c) * inv(rr)
    K = [[ZERO, -r[2], r[1]], [r[2], ZERO, -r[0]], [-r[1], r[0], ZERO]]
    return [[(c if i == j else ZERO) + a * K[i][j] + b * r[i] * r[j] for j in range(3)] for i in range(3)]


def Rt(name):
    return mat(name), vec(name, 3, 9)


def rt(name):
    return vec(name, 3), vec(name, 3, 3)


def inv_Rt(X):
    R, t = X
    return T(R), neg(mv(T(R), t))


def compose_Rt(X, Y):
    return mm(X[0], Y[0]), add(mv(X[0], Y[1]), X[1])


def rt_to_Rt(x):
    return R_from_r(x[0]), x[1]


def expected(fname, flags):
    """{output array: [term or None per element]}"""
    inv0 = flags.get("inverted0")
    inv1 = flags.get("inverted1")
    iv = flags.get("inverted")
    I = [[ONE if i == j else ZERO for j in range(3)] for i in range(3)]
    f = fname.replace("mrcal_", "").replace("_full", "")
    if f == "identity_R":
        return {"R": flat(I)}
    if f == "identity_r":
        return {"r": [ZERO] * 3}
    if f == "identity_Rt":
        return {"Rt": flat(I) + [ZERO] * 3}
    if f == "identity_rt":
        return {"rt": [ZERO] * 6}
    if f == "rotate_point_R":
        R, x = mat("R"), vec("x_in", 3)
        return {"x_out": mv(T(R) if iv else R, x)}
    if f == "rotate_point_r":
        R, x = R_from_r(vec("r", 3)), vec("x_in", 3)
        return {"x_out": mv(T(R) if iv else R, x)}
    if f in ("transform_point_Rt", "transform_point_rt"):
        X = Rt("Rt") if f.endswith("Rt") else rt_to_Rt(rt("rt"))
        x = vec("x_in", 3)
        R, t = X
        return {"x_out": mv(T(R), sub(x, t)) if iv else add(mv(R, x), t)}
    if f == "R_from_r":
        return {"R": flat(R_from_r(vec("r", 3)))}
    if f == "Rt_from_rt":
        return {"Rt": flat(R_from_r(vec("rt", 3))) + vec("rt", 3, 3)}
    if f == "rt_from_Rt":
        return {"rt": [None] * 3 + vec("Rt", 3, 9)}
    if f == "invert_R":
        return {"R_out": flat(T(mat("R_in")))}
    if f == "invert_Rt":
        R, t = inv_Rt(Rt("Rt_in"))
        return {"Rt_out": flat(R) + t}
    if f == "invert_rt":
        r, t = rt("rt_in")
        return {"rt_out": neg(r) + neg(mv(T(R_from_r(r)), t))}
    if f == "compose_Rt":
        X, Y = Rt("Rt_0"), Rt("Rt_1")
        X = inv_Rt(X) if inv0 else X
        Y = inv_Rt(Y) if inv1 else Y
        R, t = compose_Rt(X, Y)
        return {"Rt_out": flat(R) + t}
    if f == "compose_rt":
        X, Y = rt_to_Rt(rt("rt_0")), rt_to_Rt(rt("rt_1"))
        X = inv_Rt(X) if inv0 else X
        Y = inv_Rt(Y) if inv1 else Y
        t = add(mv(X[0], Y[1]), X[1])
        return {"rt_out": [None] * 3 + t}
    return {}
