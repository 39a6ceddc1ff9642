"""C18: the Python bindings compute what the C API computes, for arrays of any layout they accept."""
import ast
import math
import os
import re

import front
import genlib
import geval
import ir
import terms
from front import AnalysisError
from lens import check_calls
from terms import MPInterp, Poly, var

NAMED = {"project": {"-1": 9}}

PRE_M = ("#include \"mrcal.h\"\n#include \"poseutils.h\"\n#include \"triangulation.h\"\n#include \"stereo.h\"\n"
         "double _mrcal_triangulated_error(mrcal_point3_t*,mrcal_point3_t*,const mrcal_point3_t*,const mrcal_point3_t*,const mrcal_point3_t*);\n")


class Fn:
    pass


def parse(which):
    """The slice functions of a generated extension module, from its prototypes"""
    t = open(front.npsp_source(which), encoding="utf-8").read()
    marks = [m.start() for m in re.finditer(r"///////// for function ", t)] + [len(t)]
    res = {}
    for b, e in zip(marks, marks[1:]):
        s = t[b:e]
        pyname = s[len("///////// for function "):].split("\n", 1)[0].strip()
        n = len(re.findall(r"\nbool __%s__\d+__slice\(" % re.escape(pyname), s))
        m = re.search(r"\nbool __%s__0__slice\(\n(.*?)\)\n\{" % re.escape(pyname), s, re.S)
        if not m:
            raise AnalysisError("%s: no slice function for %s" % (which, pyname))
        f = Fn()
        f.which, f.name, f.c, f.nslice = which, pyname, "__%s__" % pyname, n
        f.arrays = re.findall(r"void\* data_slice__(\w+)", m[1])
        f.proto = {k: [int(x) for x in v.split(",") if x.strip()] for k, v in re.findall(r"PROTOTYPE_(\w+)\[\d+\] = \{([^}]*)\}", s)}
        f.extras = [(ty, nm) for ty, nm in re.findall(r"\n\s*const (\w+)\* (\w+)(?: __attribute__\(\(unused\)\))?,", m[1])
                    if not nm.startswith(("dims_", "strides_"))]
        f.outs = [a for a in f.arrays if re.fullmatch(r"output\d*", a)]
        f.ins = [a for a in f.arrays if a not in f.outs]
        res[pyname] = f
    return res


# ------------------------------------------------------------------------------------------ what each should compute
def pose_refs():
    R = {}

    def add(name, code, **kw):
        R[name] = dict(code=code, **kw)
    for k in ("R", "r", "Rt", "rt"):
        add("identity_" + k, "mrcal_identity_%s({output});" % k)
    for f, a in (("rotate_point", "R"), ("rotate_point", "r"), ("transform_point", "Rt"), ("transform_point", "rt")):
        nm = "_%s_%s" % (f, a)
        for inv in (0, 1):
            call = "mrcal_%s_%s%s" % (f, a, "_inverted" if inv else "")
            add(nm + "#%d" % inv, "%s({output},NULL,NULL,{%s},{x});" % (call, a), extras={"inverted": inv})
            add(nm + "_withgrad#%d" % inv, "%s({output0},{output1},{output2},{%s},{x});" % (call, a), extras={"inverted": inv})
    for a, b in (("R", "r"), ("r", "R")):
        add("_%s_from_%s" % (b, a), "mrcal_%s_from_%s({output},NULL,{%s});" % (b, a, a))
        add("_%s_from_%s_withgrad" % (b, a), "mrcal_%s_from_%s({output0},{output1},{%s});" % (b, a, a))
        add("_%st_from_%st" % (b, a), "mrcal_%st_from_%st({output},NULL,{%st});" % (b, a, a))
        add("_%st_from_%st_withgrad" % (b, a), "mrcal_%st_from_%st({output0},{output1},{%st});" % (b, a, a))
    add("_invert_R", "mrcal_invert_R({output},{R});")
    add("_invert_Rt", "mrcal_invert_Rt({output},{Rt});")
    add("_invert_rt", "mrcal_invert_rt({output},NULL,NULL,{rt});")
    add("_invert_rt_withgrad", "for(int i=0;i<36;i++){output1}[i]=0; for(int i=0;i<3;i++){output1}[7*i]=-1;"
        "mrcal_invert_rt_full({output0},0,{output1}+18,48,8,{output1}+21,48,8,{rt},0);")
    for i0 in (0, 1):
        for i1 in (0, 1):
            sfx = "_inverted" + ("0" if i0 else "") + ("1" if i1 else "") if i0 or i1 else ""
            ex = {"inverted0": i0, "inverted1": i1}
            tag = "#%d%d" % (i0, i1)
            add("_compose_Rt" + tag, "mrcal_compose_Rt%s({output},{Rt0},{Rt1});" % sfx, extras=ex)
            add("_compose_r" + tag, "mrcal_compose_r%s({output},NULL,NULL,{r0},{r1});" % sfx, extras=ex)
            add("_compose_r_withgrad" + tag, "mrcal_compose_r%s({output0},{output1},{output2},{r0},{r1});" % sfx, extras=ex)
            nulls = "NULL," * (4 if not sfx else 6)
            add("_compose_rt" + tag, "mrcal_compose_rt%s({output},%s{rt0},{rt1});" % (sfx, nulls), extras=ex)
            add("_compose_rt_withgrad" + tag, "for(int i=0;i<36;i++) {output1}[i]={output2}[i]=0;"
                "mrcal_compose_rt_full({output0},0,{output1},48,8,{output2},48,8,{output1}+18,48,8,{output2}+18,48,8,"
                "{output1}+21,48,8,{output2}+21,48,8,{rt0},0,{rt1},0,%d,%d);" % (i0, i1), extras=ex)
    add("compose_r_tinyr0_gradientr0", "mrcal_compose_r_tinyr0_gradientr0({output},{r1});")
    add("compose_r_tinyr1_gradientr1", "mrcal_compose_r_tinyr1_gradientr1({output},{r0});")
    add("R_from_quat", "double u=({q})[0],i=({q})[1],j=({q})[2],k=({q})[3]; double M[9]={{u*u+i*i-j*j-k*k,2*(i*j-u*k),2*(i*k+u*j),2*(i*j+u*k),"
        "u*u-i*i+j*j-k*k,2*(j*k-u*i),2*(i*k-u*j),2*(j*k+u*i),u*u-i*i-j*j+k*k}}; for(int a=0;a<9;a++) {output}[a]=M[a];", unit="q")
    add("skew_symmetric", "double M[9]={{0,-{a}[2],{a}[1],{a}[2],0,-{a}[0],-{a}[1],{a}[0],0}}; for(int i=0;i<9;i++) {output}[i]=M[i];")
    add("R_aligned_to_vector", "mrcal_R_aligned_to_vector({output},{v});")
    return R


def tri_refs():
    R = {}
    p3 = "(mrcal_point3_t*)"
    for m in ("geometric", "leecivera_l1", "leecivera_linf", "leecivera_mid2", "leecivera_wmid2"):
        for g in (0, 1):
            o = "output0" if g else "output"
            R["_triangulate_%s%s" % (m, "_withgrad" if g else "")] = dict(
                code="*%s{%s}=mrcal_triangulate_%s(%s,%s{v0},%s{v1},%s{t01});" % (
                    p3, o, m, "%s{output1},%s{output2},%s{output3}" % (p3, p3, p3) if g else "NULL,NULL,NULL", p3, p3, p3))
    for g in (0, 1):
        o = "output0" if g else "output"
        R["_triangulate_lindstrom" + ("_withgrad" if g else "")] = dict(
            code="*%s{%s}=mrcal_triangulate_lindstrom(%s,%s{v0_local},%s{v1_local},%s{Rt01});" % (
                p3, o, "%s{output1},%s{output2},%s{output3}" % (p3, p3, p3) if g else "NULL,NULL,NULL", p3, p3, p3))
        R["_triangulated_error" + ("_withgrad" if g else "")] = dict(
            code="*{%s}=_mrcal_triangulated_error(%s,%s{v0},%s{v1},%s{t01});" % (
                o, "%s{output1},%s{output2}" % (p3, p3) if g else "NULL,NULL", p3, p3, p3))
    return R


PROJ = [("PINHOLE", 4, ""), ("OPENCV5", 9, ""), ("STEREOGRAPHIC", 4, ""), ("LATLON", 4, ""), ("CAHVOR", 9, "")]
COOKIE = ("  c->lensmodel=(mrcal_lensmodel_t){{.type=MRCAL_LENSMODEL_%s}}; c->Nintrinsics=%d;\n"
          "  _mrcal_precompute_lensmodel_data(&c->precomputed,&c->lensmodel);\n")


def mrcal_refs():
    R = {}
    for k in ("pinhole", "stereographic", "lonlat", "latlon"):
        for g in (0, 1):
            w = "_withgrad" if g else ""
            o = "output0" if g else "output"
            d = "{output1}" if g else "NULL"
            R["_project_%s%s" % (k, w)] = dict(code="mrcal_project_%s((mrcal_point2_t*){%s},(mrcal_point3_t*)%s,(mrcal_point3_t*){points},1,{fxycxy});" % (k, o, d))
            R["_unproject_%s%s" % (k, w)] = dict(code="mrcal_unproject_%s((mrcal_point3_t*){%s},(mrcal_point2_t*)%s,(mrcal_point2_t*){points},1,{fxycxy});" % (k, o, d))
    for model, n, _ in PROJ:
        for g in (0, 1):
            o = "output0" if g else "output"
            R["_project%s#%s" % ("_withgrad" if g else "", model)] = dict(
                code="mrcal_lensmodel_t lm={{.type=MRCAL_LENSMODEL_%s}}; ret=mrcal_project((mrcal_point2_t*){%s},%s,(mrcal_point3_t*){points},1,&lm,{intrinsics});" % (
                    model, o, "(mrcal_point3_t*){output1},{output2}" if g else "NULL,NULL"),
                named={-1: n}, cookie=COOKIE % (model, n), extras={"lensmodel": '"LENSMODEL_%s"' % model})
    R["apply_homography"] = dict(code="double a={H}[0]*{v}[0]+{H}[1]*{v}[1]+{H}[2],b={H}[3]*{v}[0]+{H}[4]*{v}[1]+{H}[5],c={H}[6]*{v}[0]+{H}[7]*{v}[1]+{H}[8];"
                                 "{output}[0]=a/c; {output}[1]=b/c;")
    # J is 4x5 in compressed-row form, an empty row included; only its first 3 rows are "leading"
    csr = {"Jp": ("int", [0, 2, 2, 5, 7]), "Ji": ("int", [1, 4, 0, 2, 3, 0, 4])}
    dense = "const int P[]={{0,2,2,5,7}},I[]={{1,4,0,2,3,0,4}}; double J[20]={{0}}; for(int r=0;r<4;r++) for(int k=P[r];k<P[r+1];k++) J[5*r+I[k]]={Jx}[k];\n"
    for nm, nx in (("_A_Jt_J_At", 3), ("_A_Jt_J_At__2", 2)):
        R[nm] = dict(code=dense + "double T[9]={{0}}; const int N=%d; for(int a=0;a<N;a++) for(int b=0;b<N;b++) for(int r=0;r<3;r++) "
                     "{{ double x=0,y=0; for(int s=0;s<5;s++) {{ x+={A}[5*a+s]*J[5*r+s]; y+={A}[5*b+s]*J[5*r+s]; }} T[a*N+b]+=x*y; }}"
                     "for(int i=0;i<N*N;i++) {output}[i]=T[i];" % nx,
                     dims={"A": [nx, 5], "Jp": [5], "Ji": [7], "Jx": [7], "output": [nx, nx]}, const=csr, extras={"Nleading_rows_J": 3})
    R["_Jt_x"] = dict(code=dense + "for(int s=0;s<5;s++) {{ double y=0; for(int r=0;r<4;r++) y+=J[5*r+s]*{xt}[r]; {output}[s]=y; }}",
                      dims={"Jp": [5], "Ji": [7], "Jx": [7], "xt": [4], "output": [5]}, const=csr)
    return R


# Outside what this check evaluates: they call iterative code, or work on images
SKIP = {"_unproject": "opaque", "apply_color_map": "image", "_stereo_range_sparse": "image", "_stereo_range_dense": "image"}
OPAQUE = {
    "_align_procrustes_vectors_R01_weights": ("mrcal_align_procrustes_vectors_R01", ["output", 2, "v0", "v1", "weights"]),
    "_align_procrustes_vectors_R01_noweights": ("mrcal_align_procrustes_vectors_R01", ["output", 2, "v0", "v1", None]),
    "_align_procrustes_points_Rt01_weights": ("mrcal_align_procrustes_points_Rt01", ["output", 2, "v0", "v1", "weights"]),
    "_align_procrustes_points_Rt01_noweights": ("mrcal_align_procrustes_points_Rt01", ["output", 2, "v0", "v1", None]),
    "_unproject": ("_mrcal_unproject_internal", ["output", "points", 1, ("cookie", "lensmodel"), "intrinsics", ("cookie", "precomputed")]),
}

SRCS = {"poseutils": ["poseutils.c", "poseutils-uses-autodiff.cc", "poseutils-opencv.c"],
        "triangulation": ["triangulation.cc", "poseutils.c", "poseutils-uses-autodiff.cc", "poseutils-opencv.c"],
        "mrcal": None}
STRIDES = [None, (1,), (3, 1), (13, 3, 1)]


def strided(dims, k):
    """Unequal, non-contiguous strides; different for every array"""
    n = len(dims)
    base = 8 * (2 + k)
    s, st = base, []
    for d in reversed(dims):
        st.insert(0, s)
        s = s * d + 8 * (k + 1)
    if n >= 2 and k % 2:
        # transposed: the last index varies slowest
        s, st = base, []
        for d in dims:
            st.append(s)
            s = s * d + 8 * (k + 1)
    return st


def contig(dims, size=8):
    st, s = [], size
    for d in reversed(dims):
        st.insert(0, s)
        s *= d
    return st


def offsets(dims, st):
    """byte offset -> flat index"""
    res = {0: 0}
    tab = [(0, 0)]
    for d, s in zip(dims, st):
        tab = [(o + i * s, f * d + i) for o, f in tab for i in range(d)]
    return dict(tab)


CT = {"int": 4, "double": 8}


class Case:
    def __init__(self, f, key, spec, i):
        self.f, self.key, self.spec, self.n = f, key, spec, "w%d" % i
        named = dict(spec.get("named", {}))
        self.dims = {}
        for a in f.arrays:
            self.dims[a] = spec.get("dims", {}).get(a) or [d if d >= 0 else named.get(d, 2) for d in f.proto[a]]
        self.const = spec.get("const", {})

    def size(self, a):
        return CT[self.const[a][0]] if a in self.const else 8

    def wrapper(self, n, strides, what="slice"):
        f = self.f
        decl, body, args = [], [], []
        for a in f.arrays:
            d, st = self.dims[a], strides[a]
            z = len(d)
            if a in self.const:
                decl.append("static const %s %s_%s[]={%s};" % (self.const[a][0], n, a, ",".join(map(str, self.const[a][1]))))
            else:
                decl.append("extern char %s_%s[];" % (n, a))
            body.append("  const npy_intp d_%s[]={%s}, s_%s[]={%s};" % (a, ",".join(map(str, d)) or "0", a, ",".join(map(str, st)) or "0"))
            args.append("%d,d_%s,s_%s,%d,d_%s,s_%s,%d,(void*)%s_%s" % (z, a, a, z, a, a, self.size(a), n, a))
        for ty, nm in f.extras:
            v = self.spec.get("extras", {}).get(nm)
            if ty == "char":
                args.append(v or '""')
            else:
                body.append("  const %s x_%s=%s;" % (ty, nm, v if v is not None else 1))
                args.append("&x_" + nm)
        body.insert(0, "  %scookie_t cookie_={0}; %scookie_t* c=&cookie_; (void)c;" % (f.c, f.c))
        if what == "slice" and "cookie" in self.spec:
            body.append(self.spec["cookie"].replace("{{", "{").replace("}}", "}"))
        fnname = f.c + ("0__slice" if what == "slice" else "validate")
        return "%s\nextern int %s_ret[];\nvoid %s(void){\n%s\n  %s_ret[0]=!!%s(%s,c);\n}\n" % (
            " ".join(decl), n, n, "\n".join(body), n, fnname, ",".join(args))

    def ref(self, n):
        names = {a: "%s_%s" % (n, a) for a in self.f.arrays}
        decl = " ".join("extern double %s[];" % v for k, v in names.items() if k not in self.const)
        return "%s\nextern int %s_ret[];\nvoid %s(void){ int ret=1; %s\n %s_ret[0]=!!ret; }\n" % (decl, n, n, self.spec["code"].format(**names), n)


class BSum:
    def __init__(self, fn_, n, case, strides, opaque=None):
        self.n, self.case = n, case
        self.tab = {a: offsets(case.dims[a], strides[a]) for a in case.f.arrays}

        def il(base, off, t):
            if isinstance(base, tuple) and base[0] == "global" and base[1].startswith(n + "_"):
                a = base[1][len(n) + 1:]
                if a not in self.tab:
                    return None
                c = off.const()
                i = self.tab[a].get(c) if c is not None else None
                if i is None or t.size != 8:
                    return var("outside", a, off, t.size)
                return var(a, i)
            return None
        self.ev = geval.Eval(fn_, [], init_load=il, opaque_calls=opaque)

    def at(self, a, flat):
        for o, i in self.tab[a].items():
            if i == flat:
                e = self.ev.retmem.get((("global", self.n + "_" + a), terms.P(o)))
                return None if e is None or e[1] != 8 or not isinstance(e[0], Poly) else e[0]

    def ret(self):
        e = self.ev.retmem.get((("global", self.n + "_ret"), terms.P(0)))
        return None if e is None else e[0]

    def wild(self):
        return [a for a in self.ev.accesses if a.base == "null" or (isinstance(a.base, tuple) and a.base[0] in ("*", "val"))]

    def outside(self):
        """Accesses that are not exactly an element of one of the arrays"""
        for a in self.ev.accesses:
            if isinstance(a.base, tuple) and a.base[0] == "global" and a.base[1].startswith(self.n + "_"):
                x = a.base[1][len(self.n) + 1:]
                if x in self.tab and x not in self.case.const:
                    c = a.off.const()
                    if c is None or c not in self.tab[x] or a.size != 8:
                        if a.size > 8 and c is not None and all(c + 8 * k in self.tab[x] for k in range(a.size // 8)):
                            continue
                        yield x, a


def specs():
    return {"poseutils": pose_refs(), "triangulation": tri_refs(), "mrcal": mrcal_refs()}


def rng_points(case, n=4):
    import random
    res = []
    for k in range(n):
        r = random.Random(5 + 31 * k)
        pt = {}
        for a in case.f.ins:
            tot = 1
            for d in case.dims[a]:
                tot *= d
            for i in range(tot):
                pt[(a, i)] = r.uniform(-0.9, 0.9)
            if a == "fxycxy" or a == "intrinsics":
                for i, v in enumerate((1100., 1200., 640., 480.)):
                    pt[(a, i)] = v * r.uniform(0.9, 1.1)
                for i in range(4, tot):
                    pt[(a, i)] = r.uniform(-0.05, 0.05)
            if a == "points":
                if tot == 3:
                    pt[(a, 2)] = r.uniform(1.5, 3)
                else:
                    for i in range(2):
                        pt[(a, i)] = r.uniform(300, 900)
            if a in ("v0", "v1", "v0_local", "v1_local") and tot == 3:
                pt[(a, 2)] = r.uniform(4, 6)
                if a in ("v1", "v1_local"):
                    for i in range(3):
                        pt[(a, i)] = pt[(a[:1] + "0" + a[2:], i)] + r.uniform(-0.05, 0.05)
            if a in ("t01",):
                pt[(a, 0)] = r.choice((-1, 1)) * r.uniform(0.5, 1.5)
            if a in ("R", "Rt", "Rt01", "Rt0", "Rt1"):
                M = rotation(r)
                for i in range(9):
                    pt[(a, i)] = M[i]
        if case.spec.get("unit"):
            a = case.spec["unit"]
            q = [r.uniform(-1, 1) for _ in range(4)]
            l = math.sqrt(sum(x * x for x in q))
            for i in range(4):
                pt[(a, i)] = q[i] / l
        res.append(pt)
    return res


def rotation(r):
    q = [r.uniform(-1, 1) for _ in range(4)]
    l = math.sqrt(sum(x * x for x in q))
    u, i, j, k = [x / l for x in q]
    return [u*u+i*i-j*j-k*k, 2*(i*j-u*k), 2*(i*k+u*j), 2*(i*j+u*k), u*u-i*i+j*j-k*k, 2*(j*k-u*i), 2*(i*k-u*j), 2*(j*k+u*i), u*u-i*i-j*j+k*k]


def agree(a, b, pts, tol=1e-9):
    for k, pt in enumerate(pts):
        I = MPInterp(5 + k, {kk: v for kk, v in pt.items()})
        x, y = I.ev(a), I.ev(b)
        if x != x and y != y:
            continue
        if x != x or y != y or abs(x - y) > tol * max(1, abs(x), abs(y)):
            return pt, x, y
    return None


def compile_module(which, name, texts):
    """One generated module with wrappers appended"""
    src = front.npsp_source(which)
    p = os.path.join(os.path.dirname(src), "%s_%s.c" % (name, which) if "pywrap" in name else "%s_%s-pywrap.c" % (name, which))
    with open(p, "w") as fo:
        fo.write(open(src, encoding="utf-8").read() + "\n#undef Py_LIMITED\n" + PRE_M + "\n".join(texts))
    return front.compile_bc(os.path.basename(p))


def c18(ctx):
    ctx.rule("bindings: each compiled slice function of the three extension modules, called on arrays of a contiguous and of a permuted, padded "
             "layout (unless validation rejects that layout), reads and writes only the arrays' elements and computes exactly the value "
             "numbers the C API function of the same name computes from the same arguments; wrappers in Python forward every argument on every path")
    items = []
    for which, table in specs().items():
        F = parse(which)
        used = set()
        for key in table:
            nm = key.split("#")[0]
            if nm not in F:
                raise AnalysisError("%s: %s is gone" % (which, nm))
            used.add(nm)
        for nm in F:
            if nm not in used and nm not in SKIP and nm not in OPAQUE:
                raise AnalysisError("no reference computation for %s.%s" % (which, nm))
        items.append((which, F, table))
    jobs = []
    for which, F, table in items:
        jobs += prepare(ctx, which, F, table)
    ctx.parallel(_one, jobs)
    terms.reset()
    c18_python(ctx)
    ctx.require("slice functions", 60)
    ctx.require("outputs", 1500)


def prepare(ctx, which, F, table):
    cases = []
    for i, (key, spec) in enumerate(sorted(table.items())):
        cases.append(Case(F[key.split("#")[0]], key, spec, i))
    ocases = [Case(F[nm], nm, {"named": {-1: 2 if nm != "_unproject" else 9}}, 500 + i)
              for i, nm in enumerate(sorted(OPAQUE)) if nm in F]
    # Which arrays must be contiguous? Validation alone, without the library
    vt, vinfo = [], []
    seen = {}
    for c in cases + ocases:
        if c.f.name in seen:
            continue
        seen[c.f.name] = c
        for a in c.f.arrays:
            for k, d in enumerate(c.dims[a]):
                if d <= 1:
                    continue
                st = {x: contig(c.dims[x], c.size(x)) for x in c.f.arrays}
                st[a][k] += 8
                n = "%sv%s_%d" % (c.n, a, k)
                vt.append(c.wrapper(n, st, "validate"))
                vinfo.append((n, c.f.name, a))
        n = c.n + "vok"
        vt.append(c.wrapper(n, {x: contig(c.dims[x], c.size(x)) for x in c.f.arrays}, "validate"))
        vinfo.append((n, c.f.name, None))
    bc = compile_module(which, "c18v", vt)
    m = ir.Module(front.specialise([bc], [n for n, _, _ in vinfo], "c18v_" + which, rounds=1))
    need, free = {}, {}
    for n, fname, a in vinfo:
        ret = const_ret(m.functions[n], n)
        ctx.count("validations")
        if a is None:
            if ret == 0:
                ctx.violation("C18:%s:rejects" % fname, "%s: the binding rejects contiguous arrays of the right shape" % fname)
        elif ret == 0:
            need.setdefault(fname, set()).add(a)
        else:
            free.setdefault(fname, set()).add(a)
    texts, jobs = [], []
    roots = []
    for c in cases + ocases:
        must = need.get(c.f.name, set()) - free.get(c.f.name, set())
        st1 = {a: contig(c.dims[a], c.size(a)) for a in c.f.arrays}
        st2 = {a: strided(c.dims[a], k) if a not in must and a not in c.const else st1[a] for k, a in enumerate(c.f.arrays)}
        texts.append(c.wrapper(c.n + "a", st1))
        roots.append(c.n + "a")
        c.layouts = [("a", st1, "contiguous")]
        if st2 != st1:
            texts.append(c.wrapper(c.n + "b", st2))
            roots.append(c.n + "b")
            c.layouts.append(("b", st2, "non-contiguous"))
        if "code" in c.spec:
            texts.append(c.ref(c.n + "r"))
            roots.append(c.n + "r")
    bc = compile_module(which, "c18s", texts)
    lib = front.compile_all(SRCS[which] or front.lib_sources())
    from concurrent.futures import ThreadPoolExecutor
    nch = 8
    chunks = [cases[k::nch] for k in range(nch)]

    def one(k):
        keep = [c.n + l for c in chunks[k] for l in [x[0] for x in c.layouts] + ["r"]]
        if not keep:
            return None
        return ir.Module(front.specialise(lib + [bc], keep, "c18_%s_%d" % (which, k)))
    with ThreadPoolExecutor(8) as ex:
        mods = list(ex.map(one, range(nch)))
    for k in range(nch):
        for c in chunks[k]:
            jobs.append((c, {l: mods[k].functions[c.n + l] for l in [x[0] for x in c.layouts] + ["r"]}))
    if ocases:
        m = ir.Module(front.specialise([bc], [c.n + l[0] for c in ocases for l in c.layouts], "c18o_" + which))
        for c in ocases:
            jobs.append((c, {l[0]: m.functions[c.n + l[0]] for l in c.layouts}))
    return jobs


def const_ret(f, n):
    """The constant a wrapper stores in its result, if it is one on every path"""
    terms.reset()
    e = geval.Eval(f, [])
    v = e.retmem.get((("global", n + "_ret"), terms.P(0)))
    return None if v is None or not isinstance(v[0], Poly) else v[0].const()


def _one(ctx, job):
    c, fns = job
    terms.reset()
    nm = c.f.which + "." + c.f.name
    ctx.count("slice functions")
    if "r" not in fns:
        return opaque(ctx, c, fns)
    st1 = c.layouts[0][1]
    ref = BSum(fns["r"], c.n + "r", c, st1)
    check_calls(ctx, "C18:" + nm, nm, ref)
    pts = rng_points(c)
    for l, st, what in c.layouts:
        s = BSum(fns[l], c.n + l, c, st)
        check_calls(ctx, "C18:%s" % nm, nm, s)
        for a, acc in s.outside():
            ctx.violation("C18:%s:access:%s" % (nm, a), "%s, %s arrays: access that is not an element of %s: offset %s (%s)" % (nm, what, a, acc.off, acc.inst.where()))
        r0, r1 = s.ret(), ref.ret()
        if r0 is None or (r0 - r1).is_zero() is False and agree(r0, r1, pts):
            ctx.violation("C18:%s:result" % nm, "%s, %s arrays: success is not reported as the C function does" % (nm, what))
        for a in c.f.outs:
            tot = 1
            for d in c.dims[a]:
                tot *= d
            for i in range(tot):
                ctx.count("outputs")
                x, y = s.at(a, i), ref.at(a, i)
                if x is None and y is None:
                    continue
                if x is None or y is None:
                    ctx.violation("C18:%s:%s" % (nm, a), "%s, %s arrays: element %d of %s is %s" % (nm, what, i, a, "not written" if x is None else "written, though the C function does not write it"))
                    break
                if (x - y).is_zero():
                    ctx.count("outputs equal as value numbers")
                    continue
                bad = agree(x, y, pts)
                if bad:
                    ctx.violation("C18:%s:%s" % (nm, a), "%s, %s arrays%s: element %d of %s is %s, the C API gives %s" % (
                        nm, what, "".join(", %s=%s" % kv for kv in c.spec.get("extras", {}).items()), i, a, float(bad[1]), float(bad[2])))
                    break


def opaque(ctx, c, fns):
    callee, want = OPAQUE[c.f.name]
    nm = c.f.which + "." + c.f.name
    for l, st, what in c.layouts:
        s = BSum(fns[l], c.n + l, c, st)
        calls = [x for x in s.ev.calls if x[0] == callee]
        if len(calls) != 1:
            raise AnalysisError("%s: %d calls of %s" % (nm, len(calls), callee))
        args = calls[0][1]
        if len(args) != len(want):
            raise AnalysisError("%s: %s has %d arguments" % (nm, callee, len(args)))
        for k, (a, w) in enumerate(zip(args, want)):
            ctx.count("outputs")
            if isinstance(w, tuple):
                continue
            if isinstance(w, str):
                ok = base_of(a) == ("global", "%s%s_%s" % (c.n, l, w))
            elif w is None:
                ok = base_of(a) == "null" or isinstance(a, Poly) and a.is_zero()
            else:
                ok = isinstance(a, Poly) and a.const() == w
            if not ok:
                ctx.violation("C18:%s:arg%d" % (nm, k), "%s, %s arrays: argument %d of %s is not %s" % (nm, what, k, callee, w))


def base_of(a):
    b, o = (a.base, a.off) if hasattr(a, "base") else (a[0], a[1]) if isinstance(a, tuple) else (None, None)
    if b is not None and isinstance(o, Poly) and o.is_zero():
        return b
    return b if b == "null" else None


# ------------------------------------------------------------------------------------------ the Python wrappers
import numpy as np            # noqa: E402  (arrays of terms only)
import pyval                  # noqa: E402
from pyval import E, Interp, LeafInterp, Program, Raised, Unsupported, arr, symbols, unwrap      # noqa: E402

NPSP = {"poseutils": "_poseutils_npsp", "triangulation": "_triangulation_npsp", "mrcal": "_mrcal_npsp"}


def canon_extra(v):
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, E):
        c = v.p.const()
        if c is not None:
            return int(c) if c == int(c) else float(c)
    return v


def leaf_of(f, named=None, strict=True):
    """Transfer function of a compiled binding: an opaque function of each slice"""
    base = f.name[:-len("_withgrad")] if f.name.endswith("_withgrad") else f.name

    def call(interp, args, kw):
        kw = dict(kw)
        out = kw.pop("out", None)
        ins = {}
        if len(args) > len(f.ins):
            raise Raised("too many arguments")
        for n, a in zip(f.ins, args):
            ins[n] = a
        ex = {}
        for k, v in kw.items():
            if k in f.ins and k not in ins:
                ins[k] = v
            elif any(k == nm for _, nm in f.extras):
                ex[k] = canon_extra(v)
            else:
                raise Raised("unexpected argument %s of %s" % (k, f.name))
        if len(ins) != len(f.ins):
            raise Raised("missing argument of " + f.name)
        dims = {}
        protos = []
        for n in f.ins:
            x = arr(ins[n])
            p = f.proto[n]
            if x.ndim < len(p):
                x = x.reshape((1,) * (len(p) - x.ndim) + x.shape)
            for d, s in zip(p, x.shape[x.ndim - len(p):]):
                if d >= 0 and s != d or d < 0 and dims.setdefault(d, s) != s:
                    raise Raised("%s: argument %s has shape %s" % (f.name, n, x.shape))
            ins[n] = x
            protos.append(p)
        try:
            lead = np.broadcast_shapes(*[ins[n].shape[:ins[n].ndim - len(p)] for n, p in zip(f.ins, protos)]) if f.ins else ()
        except ValueError as e:
            raise Raised("%s: %s" % (f.name, e))
        oshape = [tuple(d if d >= 0 else dims[d] for d in f.proto[o]) for o in f.outs]
        outs = [np.empty(lead + s, dtype=object) for s in oshape]
        exs = ",".join("%s=%r" % (nm, ex[nm]) for _, nm in f.extras if nm in ex and ex[nm] not in (0, None))
        for i in np.ndindex(*lead):
            flat = []
            for n, p in zip(f.ins, protos):
                x = np.broadcast_to(ins[n], lead + ins[n].shape[ins[n].ndim - len(p):])[i]
                flat += [E.of(v).p for v in (x.reshape(-1) if isinstance(x, np.ndarray) else [x])]
            for k, o in enumerate(outs):
                for j, jx in enumerate(np.ndindex(*oshape[k])):
                    o[i + jx] = E(terms.fn("leaf:%s:%s:%d:%d" % (base, exs, k, j), *(flat or [terms.P(0)])))
        if out is not None:
            given = list(out) if isinstance(out, (tuple, list)) else [out]
            if len(given) != len(outs):
                raise Raised("out: %d arrays for %d outputs of %s" % (len(given), len(outs), f.name))
            for g, o in zip(given, outs):
                if g is None:
                    raise Raised("out: None")
                try:
                    # numpysane broadcasts into the output: its leading dimensions may be larger
                    if np.broadcast_shapes(g.shape, o.shape) != g.shape:
                        raise Raised("out has shape %s, needs %s" % (g.shape, o.shape))
                    g[...] = o
                except ValueError as e:
                    raise Raised("out: %s" % e)
            return out
        outs = [o[()] if o.ndim == 0 else o for o in outs]
        return outs[0] if len(outs) == 1 else tuple(outs)
    return call


def leaves():
    L, F = {}, {}
    for which in NPSP:
        for nm, f in parse(which).items():
            F[nm] = f
            L[NPSP[which] + "." + nm] = leaf_of(f)
            if not nm.startswith("_"):
                L[nm] = leaf_of(f)
    return L, F


def run_paths(prog, modname, fname, args, kw):
    """[(interp, result)] over all paths of one call"""
    def run(d):
        it = Interp(prog, d)
        try:
            f = it.module_attr(modname, fname)
            a = [x.copy() if isinstance(x, np.ndarray) else x for x in args]
            k = {n: copy_arg(x) for n, x in kw.items()}
            it.given = (a, k)
            return it, it.call(f, a, k)
        except Raised as e:
            return it, e
    return list(pyval.paths(run))


def copy_arg(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, tuple):
        return tuple(copy_arg(v) for v in x)
    return x


def flat(r):
    if isinstance(r, tuple):
        return [x for v in r for x in flat(v)]
    if r is None:
        return [None]
    return list(arr(r).reshape(-1))


def shapes(r):
    return tuple(shapes(v) for v in r) if isinstance(r, tuple) else arr(r).shape if r is not None else None


def same(a, b):
    """Do two results agree, element by element?"""
    if shapes(a) != shapes(b):
        return "shapes %s and %s" % (shapes(a), shapes(b))
    for k, (x, y) in enumerate(zip(flat(a), flat(b))):
        d = E.of(x).p - E.of(y).p
        if d.is_zero():
            continue
        for s in range(3):
            I = LeafInterp(3 + s)
            u, v = I.ev(E.of(x).p), I.ev(E.of(y).p)
            if u == u and v == v and abs(u - v) > 1e-9 * max(1, abs(u), abs(v)):
                return "element %d" % k
            if (u == u) != (v == v):
                return "element %d" % k
    return None


def out_like(r):
    if isinstance(r, tuple):
        return tuple(out_like(x) for x in r)
    s = symbols("garbage", arr(r).shape)
    return s


def untouched(it, args, kw):
    """The input arrays still hold their values"""
    for n, (x, y) in enumerate(zip(args, it.given[0])):
        if isinstance(x, np.ndarray) and (x.shape != y.shape or any(not (E.of(u).p - E.of(v).p).is_zero() for u, v in zip(x.flat, y.flat))):
            return "positional argument %d" % n
    for k in kw:
        if k != "out" and isinstance(kw[k], np.ndarray):
            if any(not (E.of(u).p - E.of(v).p).is_zero() for u, v in zip(kw[k].flat, it.given[1][k].flat)):
                return "argument " + k
    return None


class Scenario:
    def __init__(self, mod, fname, args, kw, want, label=""):
        self.mod, self.fname, self.args, self.kw, self.want, self.label = mod, fname, args, kw, want, label


def judge(ctx, prog, sc, tag="C18"):
    """Evaluate one call; compare with what it should give; then again writing into given arrays"""
    name = "%s.%s" % (sc.mod, sc.fname)
    ctx.count("python calls")
    try:
        res = run_paths(prog, sc.mod, sc.fname, sc.args, sc.kw)
    except Unsupported as e:
        ctx.count("python calls outside the evaluator")
        ctx.skipped.append("%s(%s): %s" % (name, sc.label, e))
        return
    for it, r in res:
        ctx.count("python paths")
        if isinstance(r, Raised):
            if not isinstance(sc.want, Raised):
                ctx.violation("%s:py:%s:raises" % (tag, name), "%s(%s) raises (%s) where it should return a result" % (name, sc.label, r.where))
            continue
        if isinstance(sc.want, Raised):
            ctx.violation("%s:py:%s:accepts" % (tag, name), "%s(%s) returns a result; %s" % (name, sc.label, sc.want.where))
            continue
        wants = sc.want if isinstance(sc.want, list) else [sc.want]
        bad = [same(r, w) for w in wants]
        if all(bad):
            ctx.violation("%s:py:%s:value" % (tag, name), "%s(%s): the result differs from the C API's (%s)" % (name, sc.label, bad[0]))
            continue
        u = untouched(it, sc.args, sc.kw)
        if u:
            ctx.violation("%s:py:%s:modifies" % (tag, name), "%s(%s) modifies its %s" % (name, sc.label, u))
    if isinstance(sc.want, Raised) or "out" in sc.kw or sc.kw.get("_noout"):
        return
    w0 = sc.want[0] if isinstance(sc.want, list) else sc.want
    node = prog.module(sc.mod)[1][sc.fname]
    if "out" not in [a.arg for a in node.args.args + node.args.kwonlyargs]:
        return
    o = out_like(w0)
    kw = dict(sc.kw, out=o)
    try:
        res = run_paths(prog, sc.mod, sc.fname, sc.args, kw)
    except Unsupported as e:
        ctx.count("python calls outside the evaluator")
        ctx.skipped.append("%s(%s, out): %s" % (name, sc.label, e))
        return
    for it, r in res:
        ctx.count("python paths")
        if isinstance(r, Raised):
            ctx.violation("%s:py:%s:out-raises" % (tag, name), "%s(%s, out=) raises: %s" % (name, sc.label, r.where))
            continue
        got = it.given[1]["out"]
        wants = sc.want if isinstance(sc.want, list) else [sc.want]
        bad = [same(got, w) for w in wants]
        if all(bad):
            ctx.violation("%s:py:%s:out" % (tag, name), "%s(%s, out=): the given array does not hold the result (%s)" % (name, sc.label, bad[0]))
        elif all(same(r, w) for w in wants):
            ctx.violation("%s:py:%s:out-return" % (tag, name), "%s(%s, out=) does not return the result" % (name, sc.label))


LEADS = {1: [((),), ((2,),)], 2: [((), ()), ((2,), ()), ((), (3,)), ((2, 1), (3,))], 3: [((), (), ()), ((2,), (), ()), ((2, 1), (3,), ()), ((), (2,), (2,))]}


def thin(L, F, nm, lead, named, get_gradients=False, **ex):
    """What mrcal.<nm> should give: the slice function of that name, on the arguments in that order"""
    f = F["_" + nm + ("_withgrad" if get_gradients else "")]
    args = [symbols(a, l + tuple(d if d >= 0 else named[d] for d in f.proto[a])) for a, l in zip(f.ins, lead)]
    return args, lambda a: leaf_of(f)(None, a, dict(ex))


def py_scenarios(L, F):
    R = []
    G = (False, True)
    named = {-1: 9}
    for nm in ("r_from_R", "R_from_r", "rt_from_Rt", "Rt_from_rt", "invert_R", "invert_Rt", "invert_rt", "rotate_point_r", "rotate_point_R",
               "transform_point_rt", "transform_point_Rt"):
        f = F["_" + nm]
        for lead in LEADS[len(f.ins)]:
            for g in G if "_" + nm + "_withgrad" in F else (False,):
                for inv in ((0, 1) if f.extras else (None,)):
                    ex = {} if inv is None else {"inverted": inv}
                    a, w = thin(L, F, nm, lead, named, g, **ex)
                    kw = dict({"get_gradients": True} if g else {}, **({"inverted": True} if inv else {}))
                    R.append(Scenario("poseutils", nm, a, kw, w(a), lab(lead, kw)))
    for nm in ("compose_Rt", "compose_r", "compose_rt"):
        f = F["_" + nm]
        for lead in LEADS[2]:
            for g in G if "_" + nm + "_withgrad" in F else (False,):
                for i0 in G:
                    for i1 in G:
                        a, w = thin(L, F, nm, lead, named, g, inverted0=i0, inverted1=i1)
                        kw = {k: True for k, v in (("get_gradients", g), ("inverted0", i0), ("inverted1", i1)) if v}
                        R.append(Scenario("poseutils", nm, a, kw, w(a), lab(lead, kw)))
        for n in (3, 4):
            p = tuple(f.proto[f.ins[0]])
            a = [symbols("x%d" % k, p) for k in range(n)]
            c = leaf_of(f)
            C = lambda x, y: c(None, [x, y], {})
            if n == 3:
                want = [C(a[0], C(a[1], a[2])), C(C(a[0], a[1]), a[2])]
            else:
                want = [C(a[0], C(a[1], C(a[2], a[3]))), C(C(C(a[0], a[1]), a[2]), a[3]), C(C(a[0], a[1]), C(a[2], a[3])),
                        C(a[0], C(C(a[1], a[2]), a[3])), C(C(a[0], C(a[1], a[2])), a[3])]
            R.append(Scenario("poseutils", nm, a, {}, want, "%d transformations" % n))
            for kw in ({"inverted0": True}, {"inverted1": True}) + (({"get_gradients": True},) if nm != "compose_Rt" else ()):
                R.append(Scenario("poseutils", nm, a, kw, Raised("%s is documented to be available for two inputs only" % list(kw)[0]), "%d transformations, %s" % (n, list(kw)[0])))
    for nm in ["%sproject_%s" % (u, k) for u in ("", "un") for k in ("pinhole", "stereographic", "lonlat", "latlon")]:
        for lead in LEADS[2]:
            for g in G:
                a, w = thin(L, F, nm, lead, named, g)
                kw = {"get_gradients": True} if g else {}
                R.append(Scenario("projections", nm, a, kw, w(a), lab(lead, kw)))
    for lead in LEADS[2]:
        for g in G:
            (v, i), w = thin(L, F, "project", lead, named, g, lensmodel="LENSMODEL_OPENCV5")
            kw = {"get_gradients": True} if g else {}
            R.append(Scenario("projections", "project", [v, "LENSMODEL_OPENCV5", i], kw, w([v, i]), lab(lead, kw)))
    for m in ("geometric", "leecivera_l1", "leecivera_linf", "leecivera_mid2", "leecivera_wmid2"):
        nm = "triangulate_" + m
        for lead in LEADS[3]:
            for g in G:
                a, w = thin(L, F, nm, lead, named, g)
                kw = {"get_gradients": True} if g else {}
                R.append(Scenario("triangulation", nm, a, kw, w(a), lab(lead, kw)))
            a, w = thin(L, F, nm, lead, named)
            Rt = symbols("Rt01", lead[2] + (4, 3))
            R.append(Scenario("triangulation", nm, a[:2], {"Rt01": Rt}, w([a[0], a[1], Rt[..., 3, :]]), lab(lead, {"Rt01": 1})))
            rot = leaf_of(F["_rotate_point_R"])(None, [Rt[..., :3, :], a[1]], {})
            R.append(Scenario("triangulation", nm, a[:2], {"Rt01": Rt, "v_are_local": True}, w([a[0], rot, Rt[..., 3, :]]), lab(lead, {"Rt01": 1, "v_are_local": 1})))
        a, w = thin(L, F, nm, LEADS[3][0], named)
        Rt = symbols("Rt01", (4, 3))
        no = Raised("gradients are documented to need t01 and v_are_local=False")
        R.append(Scenario("triangulation", nm, a[:2], {"Rt01": Rt, "get_gradients": True}, no, "Rt01, get_gradients"))
        R.append(Scenario("triangulation", nm, a[:2], {"Rt01": Rt, "get_gradients": True, "v_are_local": True}, no, "Rt01, get_gradients, v_are_local"))
        R.append(Scenario("triangulation", nm, a, {"Rt01": Rt}, Raised("exactly one of t01 and Rt01 must be given"), "t01 and Rt01"))
        R.append(Scenario("triangulation", nm, a[:2], {}, Raised("exactly one of t01 and Rt01 must be given"), "neither t01 nor Rt01"))
    nm = "triangulate_lindstrom"
    for lead in LEADS[3]:
        for g in G:
            a, w = thin(L, F, nm, lead, named, g)
            kw = {"get_gradients": True} if g else {}
            R.append(Scenario("triangulation", nm, a, kw, w(a), lab(lead, kw)))
        a, w = thin(L, F, nm, lead, named)
        Ri = np.swapaxes(a[2][..., :3, :], -1, -2)
        rr = [leaf_of(F["_rotate_point_R"])(None, [Ri, a[1]], {}), leaf_of(F["_rotate_point_R"])(None, [a[2][..., :3, :], a[1]], {"inverted": 1})]
        R.append(Scenario("triangulation", nm, a, {"v_are_local": False}, [w([a[0], r, a[2]]) for r in rr], lab(lead, {"v_are_local": 0})))
    R.append(Scenario("triangulation", nm, a, {"v_are_local": False, "get_gradients": True}, Raised("gradients are documented to need v_are_local"), "get_gradients, v_are_local=False"))
    return R


def lab(lead, kw):
    return "; ".join(["leading dimensions " + " and ".join(str(l) for l in lead)] + ["%s" % k for k in kw])


def c18_python(ctx):
    L, F = leaves()
    prog = Program(os.path.join(front.REPO, "mrcal"), L)
    ctx.skipped = []
    for sc in py_scenarios(L, F):
        judge(ctx, prog, sc)
    if ctx.skipped:
        print("  not evaluated: " + "; ".join(sorted(set(ctx.skipped))[:6]))
