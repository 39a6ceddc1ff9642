"""C28: every index, count and dimension is used for what it counts.  A type check over the syntax trees of the
C sources (clang) and of the Python sources: quantities get a kind from the names the code base uses throughout;
kinds must agree in argument passing, comparisons, subscripts and assignments."""
import ast
import re

import cast
import front
from frames import python_files

KIND = [("index or count of cameras with intrinsics", r"^_?(icam_intrinsics|Ncameras_intrinsics|Ncam_?intrinsics)\d*$"),
        ("index or count of cameras with extrinsics", r"^_?(icam_extrinsics|Ncameras_extrinsics|Ncam_?extrinsics)\d*$"),
        ("index or count of frames", r"^_?(i_?frame|Nframes)\d*$"),
        ("index or count of points", r"^_?(i_?point|Npoints(_variable|_fixed)?)\d*$"),
        ("index or count of board observations", r"^_?(i_?observation_board|Nobservations_board)$"),
        ("index or count of point observations", r"^_?(i_?observation_point|Nobservations_point)$"),
        ("index or count of triangulated-point observations", r"^_?(i_?observations?(_point)?_triangulated|Nobservations_point_triangulated)$"),
        ("board width", r"^_?(calibration_)?object_width_n$"),
        ("board height", r"^_?(calibration_)?object_height_n$")]
ARRAYS = {"camera_rt": 1, "rt_cam_ref": 1, "intrinsics_all": 0, "icam_map_to_extrinsics": 0, "observations_board": 4, "observations_point": 5,
          "observations_point_pool": 5, "points": 3, "rt_ref_frame": 2, "imagersizes": 0}
ANT = {frozenset(x) for x in (("min", "max"), ("az", "el"), ("intrinsics", "extrinsics"), ("width", "height"), ("board", "point"), ("boards", "points"),
                              ("frame", "point"), ("frames", "points"), ("cols", "rows"), ("left", "right"), ("core", "distortions"), ("W", "H"))}
# columns of the index arrays
COLUMNS = {"indices_frame_camintrinsics_camextrinsics": (2, 0, 1), "indices_point_camintrinsics_camextrinsics": (3, 0, 1)}


def kind(x):
    if x:
        for i, (k, r) in enumerate(KIND):
            if re.match(r, x):
                return i
    return None


def toks(s):
    return re.findall(r"[A-Z]?[a-z]+|\d+|[A-Z]+", s)


def antonym(a, b):
    if not a or not b or a == b:
        return False
    A, B = toks(a), toks(b)
    if len(A) != len(B):
        return False
    d = [(x, y) for x, y in zip(A, B) if x != y]
    return bool(d) and all(frozenset(x) in ANT for x in d)


def disagree(a, b):
    """Do two names denote different kinds of quantity?"""
    ka, kb = kind(a), kind(b)
    if ka is not None and kb is not None:
        return ka != kb
    return antonym(a, b)


class Rep:
    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, where, line, fn, what, a, b, text):
        self.ctx.violation("C28:%s:%s:%s:%s" % (where, fn, a, b), "%s:%s: in %s: %s '%s' is given '%s': %s" % (where, line, fn, what, a, b, text))

    def check(self, where, line, fn, what, a, b, text):
        if a and b:
            if kind(a) is not None and kind(b) is not None:
                self.ctx.count("kinded_uses")
            self.ctx.count("named_uses")
            if disagree(a, b):
                self(where, line, fn, what, a, b, text)


# ---------------------------------------------------------------------- C
def cname(e):
    """As cast.name_of, with o.icam.intrinsics read as icam_intrinsics"""
    s = cast.strip(e)
    if s and s.get("kind") == "MemberExpr" and s.get("name") in ("intrinsics", "extrinsics"):
        b = cast.strip(s["inner"][0])
        if b and b.get("kind") == "MemberExpr" and b.get("name") == "icam":
            return "icam_" + s["name"]
    return cast.name_of(e)


def c_part(ctx, R):
    T = cast.trees(front.lib_sources() + ["mrcal-pywrap.c"])
    P = {}
    for s, protos, fns in T:
        for k, v in protos.items():
            if v[1] and (k not in P or any(v[0]) and not any(P[k])):
                P[k] = v[0]
    for s, protos, fns in T:
        for name, ps, body, at in fns:
            ctx.count("c_functions")
            for e in cast.walk(body):
                k = e.get("kind")
                w, l = e["_at"]
                if k == "CallExpr":
                    c = cast.callee(e)
                    if c in P:
                        ctx.count("call_sites")
                        for q, x in zip(P[c], e["inner"][1:]):
                            R.check(w, l, name, "parameter of %s()" % c, q, cname(x), c)
                elif k == "ArraySubscriptExpr":
                    b, i = e["inner"]
                    b, i = cast.name_of(b), kind(cname(i))
                    if b in ARRAYS and i is not None:
                        ctx.count("subscripts")
                        if ARRAYS[b] != i:
                            R(w, l, name, "array", b, cname(e["inner"][1]), "it is indexed by an %s" % KIND[ARRAYS[b]][0])
                elif k == "BinaryOperator" and e.get("opcode") in ("<", "<=", ">", ">=", "="):
                    a, b = [cname(x) for x in e["inner"]]
                    if e["opcode"] == "=" or kind(a) is not None:
                        R.check(w, l, name, "in a comparison" if e["opcode"] != "=" else "in an assignment", a, b, e["opcode"])
                elif k == "VarDecl" and e.get("inner"):
                    R.check(w, l, name, "variable", e.get("name"), cname(e["inner"][-1]), "initialisation")


# ---------------------------------------------------------------------- Python
def pname(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
        return e.slice.value
    if isinstance(e, ast.Call) and not e.args and isinstance(e.func, ast.Attribute) and e.func.attr in ("icam_intrinsics", "icam_extrinsics"):
        return e.func.attr
    if isinstance(e, ast.Subscript):
        b = pname(e.value)
        if b in COLUMNS:
            s = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if isinstance(s[-1], ast.Constant) and s[-1].value in (0, 1, 2) and len(s) > 1:
                return ("iframe", "ipoint", None, None)[0] if COLUMNS[b][s[-1].value] == 2 else \
                    {3: "ipoint", 0: "icam_intrinsics", 1: "icam_extrinsics"}[COLUMNS[b][s[-1].value]]
    return None


class Py(ast.NodeVisitor):
    def __init__(self, R, f, params):
        self.R, self.f, self.params, self.fn = R, f, params, ["<module>"]

    def chk(self, n, what, a, b):
        self.R.check(self.f, n.lineno, self.fn[-1], what, a, b, ast.unparse(n).replace("\n", " ")[:120])

    def visit_FunctionDef(self, n):
        self.R.ctx.count("python_functions")
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def visit_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        self.R.ctx.count("call_sites")
        for k in n.keywords:
            if k.arg:
                self.chk(n, "argument", k.arg, pname(k.value))
        ps = self.params.get(name)
        if ps and not any(isinstance(a, ast.Starred) for a in n.args):
            for p, a in zip(ps, n.args):
                self.chk(n, "parameter of %s()" % name, p, pname(a))
        self.generic_visit(n)

    def visit_Assign(self, n):
        for t in n.targets:
            if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                for a, b in zip(t.elts, n.value.elts):
                    self.chk(n, "variable", pname(a), pname(b))
            elif not isinstance(t, ast.Tuple):
                self.chk(n, "variable", pname(t), pname(n.value))
        self.generic_visit(n)

    def visit_If(self, n):
        t = ast.unparse(n.test)
        self.visit(n.test)
        for x in n.body:
            if isinstance(x, ast.Assign) and (ast.unparse(x.targets[0]) + " is None" in t or t == "not " + ast.unparse(x.targets[0])
                                              or ast.unparse(x.targets[0]) + " < 0" in t):
                continue                        # a default: a square board
            self.visit(x)
        for x in n.orelse:
            self.visit(x)

    def visit_Compare(self, n):
        xs = [n.left] + n.comparators
        for a, op, b in zip(xs, n.ops, xs[1:]):
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) or pname(a) and pname(b) and isinstance(a, ast.Subscript) != isinstance(b, ast.Subscript):
                if kind(pname(a)) is not None:
                    self.chk(n, "in a comparison", pname(a), pname(b))
        self.generic_visit(n)

    def visit_Subscript(self, n):
        b = pname(n.value)
        i = n.slice.elts[0] if isinstance(n.slice, ast.Tuple) and n.slice.elts else n.slice
        k = kind(pname(i))
        if b in ARRAYS and k is not None:
            self.R.ctx.count("subscripts")
            if ARRAYS[b] != k:
                self.R(self.f, n.lineno, self.fn[-1], "array", b, pname(i), "it is indexed by an %s" % KIND[ARRAYS[b]][0])
        self.generic_visit(n)


def c28(ctx):
    ctx.rule("kinds of quantities (by the names the code base uses) agree between arguments and parameters, in comparisons, subscripts, "
             "assignments and initialisations; min/max, width/height, azimuth/elevation, intrinsics/extrinsics, board/point are never exchanged")
    R = Rep(ctx)
    c_part(ctx, R)
    params = {}
    trees = [(f, ast.parse(t)) for f, t in python_files()]
    for f, tree in trees:
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                ps = [a.arg for a in n.args.posonlyargs + n.args.args]
                ps = ps[1:] if ps and ps[0] == "self" else ps
                params[n.name] = None if n.name in params and params[n.name] != ps else ps
    for f, tree in trees:
        Py(R, f, params).visit(tree)
    ctx.require("c_functions", 200)
    ctx.require("python_functions", 300)
    ctx.require("kinded_uses", 500)
    ctx.require("subscripts", 40)
