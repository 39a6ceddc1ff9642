"""C23: coordinate frames.  A type inference over the Python sources: the type of a pose is (to <- from),
the type of a point is the frame it is expressed in.  Types come from the documented naming convention
(rt_cam_ref: transforms points in the ref frame to the cam frame; p_cam: a point in the cam frame), from the
camera model API (m.rt_cam_ref()), and flow through the pose algebra by unification."""
import ast
import os
import re

import front

POSE_FUNCS = {"compose_Rt": "compose", "compose_rt": "compose", "compose_r": "compose",
              "invert_Rt": "invert", "invert_rt": "invert", "invert_R": "invert",
              "rt_from_Rt": "same", "Rt_from_rt": "same", "R_from_r": "same", "r_from_R": "same",
              "Rt_from_qt": "same", "rt_from_qt": "same", "qt_from_Rt": "same", "qt_from_rt": "same",
              "R_from_quat": "same", "quat_from_R": "same",
              "transform_point_Rt": "apply", "transform_point_rt": "apply", "transform_point_qt": "apply",
              "rotate_point_R": "apply", "rotate_point_r": "apply", "rotate_point_q": "apply"}
SHAPE = {"mv", "dummy", "atleast_dims", "xchg", "clump", "array", "asarray", "ascontiguousarray", "copy", "reshape", "squeeze",
         "astype", "broadcast_to", "normalize"}
GETTER = re.compile(r"^(Rt|rt)_(cam|ref|fromref|toref)_(cam|ref)$")


def pose_labels(name):
    """'Rt_cam_ref' -> ('cam','ref'); 'Rt10' -> ('1','0'); None if the name says nothing"""
    base = name
    m = re.match(r"^(?:camera_poses_|implied_|self_|_)*(Rt|rt|R|r)(\d)(\d)(?:_.*)?$", base)
    if m:
        return m.group(2), m.group(3)
    m = re.match(r"^_?(Rt|rt|R|r|RT|qt)_([A-Za-z]+\d*)_([A-Za-z]+\d*)((?:_[a-z]+)*)$", base)
    if m and m.group(4) in ("", "_all", "_estimate", "_mean", "_pairs", "_mounted"):
        return m.group(2), m.group(3)
    m = re.match(r"^(?:Rt|rt)_?([crf01])([crf01])$", base)
    if m:                                       # Rt_cr, Rtr0, rt_1r
        return m.group(1), m.group(2)
    m = re.match(r"^(?:Rt|rt)_([crf])([crf]?)(\d)$", base)
    if m and m.group(2):                        # Rt_cr1
        return m.group(1) + m.group(3), m.group(2) + m.group(3)
    m = re.match(r"^(?:Rt|rt)_([crf]\d)([crf]\d)$", base)
    if m:                                       # Rt_r1r0
        return m.group(1), m.group(2)
    return None


class Frames:
    """Union-find over frames; every class knows the labels that were merged into it, and where"""

    def __init__(self):
        self.parent = {}
        self.names = {}

    def find(self, x):
        self.parent.setdefault(x, x)
        self.names.setdefault(x, {x} if x[0] != "var" else set())
        while self.parent[x] != x:
            x = self.parent[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return None
        na, nb = self.names[a], self.names[b]
        bad = [(x, y) for x in sorted(na) for y in sorted(nb) if conflict(x, y)]
        if bad:
            return bad[0]
        self.parent[b] = a
        self.names[a] = na | nb
        return None


def split(label):
    m = re.match(r"^([A-Za-z_]*?)(\d*)$", label)
    return m.group(1), m.group(2)


# Words that name a frame in this code base.  Other words are not known to be different from anything.
WORDS = {"cam", "ref", "rect", "frame", "f", "c", "r", "", "camera"}
CANON = {"camera": "cam", "c": "cam", "f": "frame", "r": "ref"}


def conflict(x, y):
    """Are the two labels known to name different frames?"""
    if x == y:
        return False
    wx, wy = word(x), word(y)
    if x[0] == "formal" or y[0] == "formal":
        return {wx, wy} in ({"cam", "ref"}, {"rect", "ref"}, {"frame", "ref"}, {"frame", "cam"})
    dx, dy = digits(x), digits(y)
    if dx and dy and dx != dy and dx.isdigit() == dy.isdigit() and "frame" not in (wx, wy):      # the calibration object is what ties two calibrations together
        return True
    if wx is None or wy is None:
        return False
    if wx != wy and "" not in (wx, wy):
        # the models given to a stereo function may be the rectified ones
        if {wx, wy} == {"cam", "rect"} and (x[0] == "model" or y[0] == "model"):
            return False
        return True
    return x[0] == "model" and y[0] == "model" and dx != dy


def digits(x):
    if x[0] == "model":
        m = re.match(r"^.*\[(\w*\d|from|to)\]$|^.*?(\d|_from|_to)$", x[1])
        return (m.group(1) or m.group(2)).strip("_i") if m else None
    if x[1] in ("from", "to"):
        return x[1]
    return split(x[1])[1] or None


def word(x):
    if x[0] == "model":
        return "rect" if "rect" in x[1] else "cam"
    w = split(x[1])[0]
    if w not in WORDS:
        return None
    return CANON.get(w, w)


class Scope(ast.NodeVisitor):
    def __init__(self, checker, fname, node, outer):
        self.c, self.fname, self.node, self.outer = checker, fname, node, outer
        self.F = outer.F if outer else Frames()
        self.at_ref = 0

    def fresh(self):
        self.c.nvar += 1
        return ("var", self.c.nvar)

    def lab(self, w):
        if re.search("prev|next|old|new|orig", w):
            return self.fresh()                 # another frame in each iteration
        a, d = split(w)
        return ("lab", CANON.get(a, a) + d)

    def formal(self, w):
        """A frame named by a formal parameter: its meaning is that of the callee"""
        if w == "ref":
            return ("lab", "ref")
        self.c.nvar += 1
        return ("formal", w, self.c.nvar)

    # ---------------------------------------------------------------- types of expressions
    def pose(self, e):
        """(to, from) of a pose-valued expression, or None"""
        if isinstance(e, ast.Name):
            l = pose_labels(e.id)
            if l is None and e.id in ("rt", "Rt") and GETTER.match(getattr(self.node, "name", "")):
                l = pose_labels(self.node.name)         # the argument of a setter
            return l and (self.lab(l[0]), self.lab(l[1]))
        if isinstance(e, ast.Attribute):
            l = pose_labels(e.attr)
            return l and (self.lab(l[0]), self.lab(l[1]))
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                l = pose_labels(e.slice.value)
                m = re.search(r"(\d)$", ast.unparse(e.value))
                d = m.group(1) if m else ""     # optimization_inputs1['rt_cam_ref']
                return l and (self.lab(l[0] + d), self.lab(l[1] + d))
            return self.pose(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            # a negated rotation
            if self.is_r(e.operand):
                p = self.pose(e.operand)
                return p and (p[1], p[0])
            return None
        if isinstance(e, ast.Call):
            f = e.func
            n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if n is None:
                return None
            if isinstance(f, ast.Attribute) and GETTER.match(n) and not e.args:
                m = GETTER.match(n)
                cam = ("model", ast.unparse(f.value))
                d = {"cam": cam, "ref": ("lab", "ref")}
                if m.group(2) in d and m.group(3) in d:
                    return d[m.group(2)], d[m.group(3)]
                return None
            k = POSE_FUNCS.get(n)
            if k == "same" and e.args:
                return self.pose(e.args[0])
            if k == "invert" and e.args:
                p = self.pose(e.args[0])
                return p and (p[1], p[0])
            if k == "compose" and len(e.args) >= 2 and not any(isinstance(a, ast.Starred) for a in e.args):
                ps = []
                for i, a in enumerate(e.args):
                    p = self.pose(a) or (self.fresh(), self.fresh())
                    if self.flag(e, "inverted%d" % i):
                        p = (p[1], p[0])
                    ps.append(p)
                for a, b in zip(ps, ps[1:]):
                    self.unify(a[1], b[0], e, "composition")
                return ps[0][0], ps[-1][1]
            if n in ("transpose", "matmult", "inv"):
                if n == "transpose" and e.args and self.is_R(e.args[0]):
                    p = self.pose(e.args[0])
                    return p and (p[1], p[0])
                return None
            if n in SHAPE:
                return self.pose(e.args[0] if e.args and not (isinstance(f, ast.Attribute) and n in ("astype", "reshape", "copy", "squeeze") and not self.is_module(f.value)) else f.value)
        return None

    def is_module(self, e):
        return isinstance(e, ast.Name) and e.id in ("np", "nps", "mrcal", "numpy")

    def is_r(self, e):
        while isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice) or isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
                s = ast.unparse(e.slice).replace(" ", "").strip("()")
                return s in (":3", "...,:3")
            e = e.value
        n = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ""
        return n.startswith(("r_", "_r_")) or re.match(r"^r\d\d", n) is not None

    def is_R(self, e):
        if isinstance(e, ast.Subscript):
            s = ast.unparse(e.slice).replace(" ", "").strip("()")
            return s in (":3,:", "...,:3,:")
        n = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ""
        return n.startswith("R_") or re.match(r"^R\d\d", n) is not None

    def flag(self, e, name):
        return any(k.arg == name and isinstance(k.value, ast.Constant) and k.value.value for k in e.keywords)

    def point(self, e):
        """Frame of a point- or direction-valued expression, or None"""
        if isinstance(e, ast.Name):
            m = re.match(r"^[pv](\d?)_?(cam|ref|rect|frame)s?(\d?)(?:all|_cut|_estimate)?$", e.id)
            if m:
                return self.lab(m.group(2) + (m.group(3) or (m.group(1) if m.group(2) != "frame" else "")))
            m = re.match(r"^p([01])(?:_cut)?$|^vlocal([01])$|^v([01])local(?:_noisy)?$", e.id)
            if m:
                return self.lab(m.group(1) or m.group(2) or m.group(3))
            m = re.match(r"^(?:points?|boards?|vectors?)_(cam|ref|rect|frame)(\d?)$", e.id)
            if m:
                return self.lab(m.group(1) + m.group(2))
            return None
        if isinstance(e, ast.Subscript):
            return self.point(e.value)
        if isinstance(e, ast.Call):
            f = e.func
            n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if n and POSE_FUNCS.get(n) == "apply" and len(e.args) >= 2:
                T = self.pose(e.args[0])
                x = self.point(e.args[1])
                if T is None:
                    return None
                if self.flag(e, "inverted"):
                    T = (T[1], T[0])
                if x is not None:
                    self.unify(T[1], x, e, "transformation")
                return T[0]
            if n == "unproject":
                return self.intrinsics_of(e)
            if n in SHAPE and e.args:
                return self.point(e.args[0])
        return None

    def intrinsics_of(self, e):
        for a in e.args[1:]:
            if isinstance(a, ast.Starred) and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Attribute) \
               and a.value.func.attr == "intrinsics":
                return ("model", ast.unparse(a.value.func.value))
        return None

    # ---------------------------------------------------------------- constraints
    def unify(self, a, b, node, what):
        self.c.ctx.count("constraints")
        if a[0] != "var" and b[0] != "var":
            self.c.ctx.count("constraints_between_named_frames")
        bad = self.F.union(a, b)
        if bad and self.at_ref and {word(bad[0]), word(bad[1])} == {"cam", "ref"}:
            return                              # this camera is the reference
        if bad:
            self.c.report(self.fname, node, what, bad)

    def visit_If(self, n):
        t = ast.unparse(n.test)
        pos = re.search(r"icam_extrinsics\d?\s*>=\s*0", t) is not None
        neg = re.search(r"icam_extrinsics\d?\s*<\s*0", t) is not None
        self.visit(n.test)
        for body, ref in ((n.body, neg), (n.orelse, pos)):
            self.at_ref += ref
            for x in body:
                self.visit(x)
            self.at_ref -= ref

    def assign(self, target, value, node):
        plain = value
        while isinstance(plain, (ast.Subscript, ast.Attribute)) or isinstance(plain, ast.Call) and isinstance(plain.func, ast.Attribute) \
                and plain.func.attr in ("copy", "astype"):
            if isinstance(plain, ast.Subscript) and isinstance(plain.slice, ast.Constant) and isinstance(plain.slice.value, str):
                break
            plain = plain.func.value if isinstance(plain, ast.Call) else plain.value
        if isinstance(plain, ast.Name):
            return                              # renaming: one frame is being given the place of another
        if isinstance(target, ast.Name) and any(isinstance(x, ast.Name) and x.id == target.id for x in ast.walk(value)):
            return                              # the name changes its meaning here
        t = self.pose(target) if isinstance(target, (ast.Name, ast.Attribute, ast.Subscript)) else None
        v = self.pose(value)
        if v is not None and t is not None:
            self.unify(t[0], v[0], node, "assignment to %s" % ast.unparse(target))
            self.unify(t[1], v[1], node, "assignment to %s" % ast.unparse(target))
        if v is None:
            x = self.point(value)
            if x is not None and isinstance(target, ast.Name):
                y = self.point(target)
                if y is not None:
                    self.unify(y, x, node, "assignment to %s" % target.id)

    def visit_Assign(self, n):
        for t in n.targets:
            if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Call) and t.elts:
                t = t.elts[0]                   # value,gradients...
            self.assign(t, n.value, n)
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if name in POSE_FUNCS:
            self.pose(n)
            self.point(n)
            self.c.ctx.count("pose_operations")
        if name == "project" and n.args:
            m = self.intrinsics_of(n)
            x = self.point(n.args[0])
            if m and x:
                self.unify(m, x, n, "projection")
        if isinstance(f, ast.Attribute) and name and GETTER.match(name) and n.args:
            v = self.pose(n.args[0])
            m = GETTER.match(name)
            d = {"cam": ("model", ast.unparse(f.value)), "ref": ("lab", "ref")}
            if v and m.group(2) in d and m.group(3) in d:
                self.unify(d[m.group(2)], v[0], n, "argument of %s()" % name)
                self.unify(d[m.group(3)], v[1], n, "argument of %s()" % name)
        for k in n.keywords:
            if k.arg:
                l = pose_labels(k.arg)
                v = self.pose(k.value) if l else None
                if l and v:
                    self.unify(self.formal(l[0]), v[0], n, "argument %s" % k.arg)
                    self.unify(self.formal(l[1]), v[1], n, "argument %s" % k.arg)
        # positional arguments of functions of this code base
        ps = self.c.params.get(name)
        if ps and not any(isinstance(a, ast.Starred) for a in n.args):
            for p, a in zip(ps, n.args):
                l = pose_labels(p)
                v = self.pose(a) if l else None
                if l and v:
                    self.unify(self.formal(l[0]), v[0], n, "argument %s of %s()" % (p, name))
                    self.unify(self.formal(l[1]), v[1], n, "argument %s of %s()" % (p, name))
        self.generic_visit(n)

    def visit_Return(self, n):
        l = pose_labels(getattr(self.node, "name", ""))
        v = self.pose(n.value) if l and n.value is not None else None
        if l and v:
            self.unify(self.lab(l[0]), v[0], n, "return value of %s()" % self.node.name)
            self.unify(self.lab(l[1]), v[1], n, "return value of %s()" % self.node.name)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n is self.node:
            self.generic_visit(n)
        else:
            self.c.function(n, self.fname + "." + n.name if self.fname else n.name)

    visit_AsyncFunctionDef = visit_FunctionDef


class Checker:
    def __init__(self, ctx):
        self.ctx = ctx
        self.nvar = 0
        self.params = {}
        self.file = None

    def report(self, fname, node, what, bad):
        def s(x):
            return "the camera frame of %s" % x[1] if x[0] == "model" else "frame '%s'" % x[1]
        self.ctx.violation("C23:%s:%s:%s:%s" % (self.file, fname or "<module>", bad[0][1], bad[1][1]),
                           "%s:%d: in %s: the %s makes %s and %s the same frame: %s" % (
                               self.file, node.lineno, fname or "the module", what, s(bad[0]), s(bad[1]), ast.unparse(node)[:140].replace("\n", " ")))

    def function(self, n, fname):
        self.ctx.count("functions")
        Scope(self, fname, n, None).visit(n)

    def module(self, rel, tree):
        self.file = rel
        self.ctx.count("modules")
        s = Scope(self, "", tree, None)
        s.generic_visit(tree)


def python_files():
    """(relative path, source) of every Python module and command line tool"""
    out = []
    d = os.path.join(front.REPO, "mrcal")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            out.append("mrcal/" + f)
    for f in sorted(os.listdir(front.REPO)):
        p = os.path.join(front.REPO, f)
        if f.startswith("mrcal-") and os.path.isfile(p) and "." not in f:
            out.append(f)
    r = []
    for f in out:
        t = open(os.path.join(front.REPO, f), encoding="utf-8").read()
        if f.endswith(".py") or t.startswith("#!") and "python" in t.split("\n", 1)[0]:
            r.append((f, t))
    return r


def c23(ctx):
    ctx.rule("frame inference: in every composition the inner frames agree, points are transformed from the frame they are in, are projected "
             "with the model of the camera they are relative to, and results are assigned to (or passed as) poses named for the frames they relate")
    C = Checker(ctx)
    trees = [(f, ast.parse(t)) for f, t in python_files()]
    for f, tree in trees:
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                ps = [a.arg for a in n.args.posonlyargs + n.args.args]
                if ps and ps[0] == "self":
                    ps = ps[1:]
                if n.name in C.params and C.params[n.name] != ps:
                    C.params[n.name] = None
                else:
                    C.params[n.name] = ps
    for f, tree in trees:
        C.module(f, tree)
    ctx.require("modules", 20)
    ctx.require("constraints", 100)
