"""Front end: /repo's current sources -> generated sources -> LLVM bitcode.

Everything is written to a scratch directory; /repo is only read."""
import atexit
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang" if os.path.exists("/usr/bin/clang") else "clang"
CLANGXX = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else "clang++"


class AnalysisError(Exception):
    """The analysis itself cannot proceed (a vanished anchor, a front-end failure)."""


def _h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:10]


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


_srcdir = None


def srcdir():
    """A scratch copy of /repo's C, C++ and Python sources, with generated sources regenerated."""
    global _srcdir
    if _srcdir:
        return _srcdir
    d = os.path.join(scratch(), "src")
    os.mkdir(d)
    for f in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, f)
        if not os.path.isfile(p):
            continue
        if "GENERATED" in f or f.endswith(".docstring.h") or f.endswith((".o", ".d", ".so")) or ".so." in f:
            continue
        if f.endswith((".c", ".cc", ".h", ".hh", ".re", ".py", ".docstring")) or f.startswith("mrcal-"):
            shutil.copy(p, d)
    shutil.copytree(os.path.join(REPO, "minimath"), os.path.join(d, "minimath"))
    g = os.path.join(d, "minimath", "minimath_generated.h")
    with open(g, "w") as fo:
        subprocess.run(["perl", "./minimath_generate.pl"], cwd=os.path.join(d, "minimath"), stdout=fo,
                       check=True)
    re2c = os.path.join(d, "cameramodel-parser.re")
    if os.path.exists(re2c):
        with open(os.path.join(d, "cameramodel-parser_GENERATED.c"), "w") as fo:
            subprocess.run(["re2c", "cameramodel-parser.re"], cwd=d, stdout=fo, check=True)
    for f in os.listdir(d):
        if f.endswith(".docstring"):
            with open(os.path.join(d, f), encoding="utf-8") as fi, open(os.path.join(d, f + ".h"), "w") as fo:
                for line in fi:
                    fo.write('"' + line.rstrip("\n").replace("\\", "\\\\").replace('"', '\\"') + '\\n"\n')
    _srcdir = d
    return d


def npsp_source(which):
    """Generate the numpysane_pywrap C source of <which>-genpywrap.py"""
    d = srcdir()
    out = os.path.join(d, which + "-npsp-pywrap-GENERATED.c")
    if not os.path.exists(out):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        with open(out, "w") as fo:
            subprocess.run(["/usr/bin/python3", which + "-genpywrap.py"], cwd=d, stdout=fo, check=True, env=env)
    return out


LIB = ["mrcal.c", "opencv.c", "uncertainty.c", "image.c", "stereo.c", "poseutils.c", "poseutils-opencv.c",
       "poseutils-uses-autodiff.cc", "triangulation.cc", "cahvore.cc", "traverse-sensor-links.c", "heap.cc",
       "python-cameramodel-converter.c", "cameramodel-parser_GENERATED.c"]


def lib_sources():
    """The library's translation units as the Makefile lists them."""
    srcs = []
    mk = os.path.join(REPO, "Makefile")
    txt = open(mk).read().replace("\\\n", " ")
    import re
    for line in txt.split("\n"):
        m = re.match(r"\s*LIB_SOURCES\s*\+?:?=\s*(.*)", line)
        if m and "$(LIB_SOURCES)" not in line:
            srcs += m.group(1).split()
    if len(srcs) < 10:
        raise AnalysisError("cannot read LIB_SOURCES from the Makefile")
    return srcs


def cflags(src):
    fl = ["-fPIC", "-I.", "-I/usr/include/suitesparse", "-w", "-Wno-int-conversion", "-Wno-error", "-ffp-contract=off", "-fno-math-errno"]
    if src.endswith((".cc", ".cpp")):
        fl += ["--std=c++0x"]
    else:
        fl += ["--std=gnu11"]
    base = os.path.basename(src)
    if "pywrap" in base or "python-cameramodel" in base:
        fl += ["-DNDEBUG", "-I/usr/include/python3.12", "-I/usr/lib/python3/dist-packages/numpy/core/include"]
        inc = subprocess.run(["/usr/bin/python3", "-c",
                              "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include())"],
                             capture_output=True, text=True).stdout.split()
        fl += ["-I" + i for i in inc]
    return fl


def compile_bc(src, out=None, extra=(), opt="-O0", debug=True):
    """Compile one C/C++ source (path relative to srcdir, or absolute) to bitcode.
    -O0 here means: no optimisation, but without the optnone attribute, so that
    later passes may run."""
    d = srcdir()
    if out is None:
        out = os.path.join(scratch(), os.path.basename(src) + "." + _h((opt, tuple(extra))) + ".bc")
    cc = CLANGXX if src.endswith((".cc", ".cpp")) else CLANG
    cmd = [cc] + cflags(src) + ["-fno-discard-value-names"]
    if opt == "-O0":
        cmd += ["-O2", "-Xclang", "-disable-llvm-passes"]
    else:
        cmd += [opt, "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"]
    if debug:
        cmd += ["-gline-tables-only"]
    cmd += list(extra) + ["-emit-llvm", "-c", src, "-o", out]
    r = subprocess.run(cmd, cwd=d, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("front end failed on %s:\n%s" % (src, r.stderr[-3000:]))
    return out


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("%s failed:\n%s" % (cmd[0], r.stderr[-3000:]))
    return r.stdout


def compile_all(srcs, **kw):
    srcdir()
    cflags("pywrap.c")
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_bc(s, **kw), srcs))


def opt(bc, passes, args=(), out=None):
    if out is None:
        out = bc[:-3] + ".%s.opt.bc" % _h((passes, tuple(args)))
    run(["opt", "-passes=" + passes] + list(args) + [bc, "-o", out])
    return out


def link(bcs, out):
    run(["llvm-link"] + list(bcs) + ["-o", out])
    return out


def dynamic_alloca_functions(bc):
    """Functions with variable-length arrays, and everything that calls them"""
    import re
    dyn, cur = set(), None
    callers = {}
    for l in run(["llvm-dis", bc, "-o", "-"]).split("\n"):
        if l.startswith("define "):
            m = re.search(r'@"?([\w.$]+)"?\(', l)
            cur = m.group(1) if m else None
        elif cur:
            if "= alloca " in l:
                if re.search(r", i(32|64) %", l):
                    dyn.add(cur)
            elif "call " in l:
                m = re.search(r'@"?([\w.$]+)"?\(', l)
                if m:
                    callers.setdefault(m.group(1), set()).add(cur)
    work = list(dyn)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in dyn:
                dyn.add(c)
                work.append(c)
    return sorted(dyn)


# Inline everything that can be, unroll every loop whose trip count becomes constant, promote memory to SSA
SPEC_ARGS = ["-inline-threshold=1000000", "-inlinehint-threshold=1000000", "-inlinecold-threshold=1000000",
             "-inline-cost-full", "-unroll-threshold=1000000", "-unroll-max-percent-threshold-boost=10000",
             "-unroll-full-max-count=100000", "-unroll-partial-threshold=0", "-unroll-allow-partial=0",
             "-unroll-runtime=0", "-vectorize-loops=false", "-vectorize-slp=false",
             "-available-load-scan-limit=10000", "-memdep-block-scan-limit=100000"]


def specialise(bcs, keep, name="spec", rounds=2):
    """Link, internalise all but <keep>, and run LLVM's simplification pipeline with
    unlimited inlining and full unrolling."""
    out = os.path.join(scratch(), name + ".bc")
    link(bcs, out)
    o2 = os.path.join(scratch(), name + ".spec.bc")
    pre = "internalize,globaldce"
    force = []
    for f in dynamic_alloca_functions(out):
        if f not in keep:
            force.append("-force-attribute=%s:alwaysinline" % f)
    if force:
        # LLVM's cost model never inlines functions with variable-length arrays, unless told to
        pre += ",forceattrs,always-inline"
    pipe = pre
    for _ in range(rounds):
        pipe += ",default<O2>"
    pipe += ",globaldce"
    run(["opt", "-passes=" + pipe, "-internalize-public-api-list=" + ",".join(keep)] + force + SPEC_ARGS + [out, "-o", o2])
    o3 = o2[:-3] + ".l.bc"
    run(["opt", "-passes=loop-simplify,lcssa", o2, "-o", o3])       # the form unroll.py needs
    o2 = o3
    return o2
