"""C11, C13: path-sensitive typestate of resources and of failures, over LLVM IR of the library."""
import os

import front
import ir
import typestate
from effects import DIAG, cstr, show

# kind, how success is told
ACQ = {"fopen": ("stream", "ptr"), "fopen64": ("stream", "ptr"), "fdopen": ("stream", "ptr"), "tmpfile": ("stream", "ptr"),
       "malloc": ("memory", "ptr"), "calloc": ("memory", "ptr"), "strdup": ("memory", "ptr"), "strndup": ("memory", "ptr"),
       "aligned_alloc": ("memory", "ptr"), "memalign": ("memory", "ptr"),
       "stbi_load_from_file": ("memory", "ptr"), "stbi_load_from_file_16": ("memory", "ptr"), "stbi_load": ("memory", "ptr"),
       "stbi_load_16": ("memory", "ptr"), "stbi_load_from_memory": ("memory", "ptr"),
       "posix_memalign": ("memory", "out0"), "open": ("file descriptor", "fd"), "open64": ("file descriptor", "fd"),
       "mmap": ("mapping", "map"), "mmap64": ("mapping", "map"),
       "dogleg_optimize2": ("solver context", "outlast"), "dogleg_optimize_dense2": ("solver context", "outlast"),
       "jpeg_CreateCompress": ("compressor", "obj0"), "jpeg_CreateDecompress": ("compressor", "obj0"),
       "mrcal_read_cameramodel_file": ("memory", "ptr"), "mrcal_read_cameramodel_string": ("memory", "ptr")}
REL = {"fclose": 0, "free": 0, "stbi_image_free": 0, "close": 0, "munmap": 0}
REL_CELL = {"dogleg_freeContext": 0, "mrcal_free_cameramodel": 0}
REL_OBJ = {"jpeg_destroy_compress": 0, "jpeg_destroy": 0, "jpeg_destroy_decompress": 0}
KINDREL = {"stream": "fclose", "memory": "free", "file descriptor": "close", "mapping": "munmap", "solver context": "dogleg_freeContext",
           "compressor": "jpeg_destroy_compress"}


def flow_modules(ctx, wanted):
    """Library modules in which every static function that (transitively) calls one of <wanted> is inlined into its callers, so that
    the analysis does not depend on how the code is divided into functions"""
    srcs = front.lib_sources()
    bcs = front.compile_all(srcs)
    out = []
    for s, b in zip(srcs, bcs):
        M = ir.Module(b)
        callers, hit, taken = {}, set(), set()
        for F in M.functions.values():
            if F.decl:
                continue
            for i in F.insts():
                if i.op in ("call", "invoke"):
                    n = ir.callee_name(i)
                    if n:
                        callers.setdefault(n, set()).add(F.name)
                        if wanted(n):
                            hit.add(F.name)
        work = list(hit)
        while work:
            for c in callers.get(work.pop(), ()):
                if c not in hit:
                    hit.add(c)
                    work.append(c)
        force = ["-force-attribute=%s:alwaysinline" % f for f in sorted(hit) if M.functions[f].linkage in (8, 9)]
        o = front.opt(b, "forceattrs,always-inline,sroa,mem2reg" if force else "sroa,mem2reg", tuple(force))
        M2 = ir.Module(o)
        nonnull = {}
        P = ir.Module(front.opt(b, "sroa,mem2reg"))
        for F in P.functions.values():
            if not F.decl:
                cmp = {v for i in F.insts() if i.op == "icmp" for v in i.ops}
                nonnull[F.name] = {a.index for a in F.args if a.type.kind == "ptr" and a not in cmp}
        M2.nonnull = nonnull
        out.append((s, M2, hit, {f for f in hit if M.functions[f].linkage in (8, 9)}))
        ctx.count("translation_units")
    return out


def failing(F, v):
    """Does a return value mean failure?  None: cannot tell"""
    if F.rettype.kind == "int" and F.rettype.bits == 1 or F.rettype.kind == "ptr":
        return None if v is None else v == ("c", 0)
    return False


def same(a, b, depth=0):
    """The same expression of the same variables"""
    if a is b:
        return True
    if isinstance(a, ir.Const) and isinstance(b, ir.Const):
        return a.kind == b.kind == "int" and a.v == b.v
    if isinstance(a, ir.Inst) and isinstance(b, ir.Inst) and depth < 12:
        return a.op == b.op and a.op not in ("call", "invoke", "phi", "alloca") and len(a.ops) == len(b.ops) and all(
            same(x, y, depth + 1) for x, y in zip(a.ops, b.ops)) or a.op == b.op == "phi" and False
    return False


def stores_pointer(F, a):
    der = {a}
    work = True
    while work:
        work = False
        for i in F.insts():
            if i.op in ("gep", "bitcast", "phi", "select") and i not in der and any(v in der for v in i.ops):
                der.add(i)
                work = True
    return any(i.op == "store" and i.ops[1] in der and i.ops[0].type.kind == "ptr" for i in F.insts())


class Resources(typestate.Explorer):
    def __init__(self, ctx, src, F, nonnull=()):
        super().__init__(F)
        self.ctx, self.src = ctx, src
        # which arguments are addresses of the caller's variables is not known: any store through an argument escapes
        # a pointer argument that the function itself never compares with NULL is taken not to be NULL
        self.nonnull = {a for a in F.args if a.index in nonnull}
        self.conv = F.name.endswith("_converter")

    def val(self, s, v):
        r = typestate.Explorer.val(self, s, v)
        return ("nz",) if r is None and v in self.nonnull else r

    def report(self, key, text):
        self.ctx.violation("C11:%s:%s:%s" % (self.src, self.F.name, key), "%s: %s" % (self.src, text))

    def acquire(self, s, i, kind):
        r = ("r", i)
        if s.res.get(r, ("none",))[0] == "open":
            self.report("again:" + kind, "%s: the %s acquired at %s is acquired again before it is released" % (self.F.name, kind, i.where()))
        s.res[r] = ("open", kind, False)
        return r

    def call(self, s, i, n):
        if n in ACQ:
            kind, how = ACQ[n]
            self.ctx.count("acquisitions_on_paths")
            ok, no = s.copy(), s.copy()
            if how in ("ptr", "fd", "map"):
                if how == "map" and isinstance(i.ops[3], ir.Const) and i.ops[3].v & 0x10:
                    v = self.val(s, i.ops[0])
                    if v is not None and v[0] == "r":
                        ok.env[i] = v
                        no.env[i] = ("c", -1)
                        return [ok, no]
                ok.env[i] = self.acquire(ok, i, kind)
                no.env[i] = ("c", 0) if how == "ptr" else ("c", -1)
                return [ok, no]
            if how in ("out0", "outlast"):
                p = i.ops[0 if how == "out0" else -1]
                k = self.cell(s, p)
                if isinstance(p, ir.Const) and p.kind == "null":
                    return [s]
                r = self.acquire(ok, i, kind)
                if k is not None:
                    ok.mem[k] = r
                    if k[0] == "p":
                        ok.res[r] = ("open", kind, True)
                if how == "out0":
                    ok.env[i] = ("c", 0)
                    no.env[i] = ("nz",)
                    if k is not None:
                        no.mem.pop(k, None)
                else:
                    # a solve that fails says so with a negative norm
                    ok.env[i], no.env[i] = ("sign", 1), ("sign", -1)
                return [ok, no]
            if how == "obj0":
                k = self.cell(s, i.ops[0])
                r = ("r", k)
                s.res[r] = ("open", kind, False)
                self.clobber(s, i, n)
                return [s]
        if n == "_setjmp" or n == "setjmp":
            a, b = s.copy(), s.copy()
            a.env[i], b.env[i] = ("c", 0), ("c", 1)
            return [a, b]
        if n in REL:
            v = self.val(s, i.ops[REL[n]])
            if n == "munmap" and v is not None and v[0] == "r" and isinstance(v[1], ir.Inst) and not same(i.ops[1], v[1].ops[1]):
                self.report("length", "%s: munmap() releases a length other than the one mapped at %s (%s)" % (self.F.name, v[1].where(), i.where()))
            self.release(s, i, n, v)
            if v is not None and v[0] == "c" and n in ("fclose",):
                self.report("null", "%s: %s is given a null stream (%s)" % (self.F.name, n, i.where()))
            return [s]
        if n in REL_CELL:
            k = self.cell(s, i.ops[0])
            if k is not None and k in s.mem:
                self.release(s, i, n, s.mem[k])
                s.mem[k] = ("c", 0)
            return [s]
        if n in REL_OBJ:
            k = self.cell(s, i.ops[0])
            r = ("r", k)
            if r in s.res:
                if s.res[r][0] == "released":
                    self.report("twice", "%s: the %s is released twice (%s)" % (self.F.name, s.res[r][1], i.where()))
                s.res[r] = ("released", s.res[r][1], False)
            return [s]
        if n == "jpeg_stdio_dest":
            v = self.val(s, i.ops[1])
            if v is not None and v[0] == "r":
                s.res[("dest", self.cell(s, i.ops[0]))] = ("assoc", v, False)
        elif n and n.startswith("jpeg_") and ("dest", self.cell(s, i.ops[0])) in s.res:
            v = s.res[("dest", self.cell(s, i.ops[0]))][1]
            if s.res.get(v, ("open",))[0] == "released":
                self.report("after", "%s: %s() writes to a stream that has been closed (%s)" % (self.F.name, n, i.where()))
        # a released handle must not be used
        for v in i.ops:
            h = self.val(s, v)
            if h is not None and h[0] == "r" and s.res.get(h, ("open",))[0] == "released" and not (n or "").startswith("llvm."):
                self.report("after", "%s: %s() is given a %s that has been released (%s)" % (self.F.name, n, s.res[h][1], i.where()))
        return None

    def clobber(self, s, i, n, keep=()):
        """A callee is taken to leave the handles in its arguments alone, unless it is seen to store a pointer through them"""
        cal = i.callee if isinstance(i.callee, ir.Function) and not i.callee.decl else None
        h = []
        for k, v in s.mem.items():
            if v[0] == "r" and not (cal is not None and any(stores_pointer(cal, a) for a, x in zip(cal.args, i.ops) if self.root(x) is k[1])):
                h.append(k)
        super().clobber(s, i, n, h)

    def release(self, s, i, n, v):
        if v is not None and v[0] == "r" and v in s.res:
            st, kind, esc = s.res[v]
            self.ctx.count("releases_on_paths")
            if st == "released":
                self.report("twice:" + kind, "%s: the %s is released twice (%s)" % (self.F.name, kind, i.where()))
            elif KINDREL.get(kind) != n and not (kind == "memory" and n in ("free", "stbi_image_free", "mrcal_free_cameramodel")):
                self.report("with:" + n, "%s: the %s is released with %s() (%s)" % (self.F.name, kind, n, i.where()))
            s.res[v] = ("released", kind, False)

    def on_access(self, s, i, p):
        while isinstance(p, ir.Inst) and p.op in ("gep", "bitcast") and self.val(s, p) is None or isinstance(p, ir.Inst) and p.op in (
                "gep", "bitcast") and self.val(s, p)[0] == "nz":
            p = p.ops[0]
        h = self.val(s, p)
        if h is None:
            return
        if h[0] == "r" and s.res.get(h, ("open",))[0] == "released":
            self.report("after", "%s: the %s is used after its release (%s)" % (self.F.name, s.res[h][1], i.where()))
        elif h == ("c", 0) and not (isinstance(p, ir.Inst) and p.op == "load" and isinstance(self.root(p.ops[0]), ir.Global)):
            self.report("null", "%s: on the path %s, a null pointer is dereferenced (%s)" % (self.F.name, s.path(), i.where()))

    def on_store(self, s, i, k, v):
        if v is not None and v[0] == "r" and v in s.res and (k is None or k[0] != "a"):
            s.res[v] = s.res[v][:2] + (True,)                # now also reachable by the caller

    def at_return(self, s, i, v):
        self.ctx.count("returns_examined")
        f = failing(self.F, v) or self.conv and v == ("c", 0)
        for r, (st, kind, esc) in s.res.items():
            if st != "open" or v == r:
                continue
            if esc and not f:
                continue
            w = r[1].where() if isinstance(r[1], ir.Inst) else r[1][1].where()
            self.report("leak:" + kind, "%s: on a path to the return at %s, the %s acquired at %s is neither released nor handed to the caller%s" % (
                self.F.name, i.where(), kind, w, " although the call failed" if esc else ""))


def c11(ctx):
    ctx.rule("on every path (correlated conditions respected) from an acquisition to a return, the resource is released exactly once with its own "
             "release function, or handed to the caller; a call that reports failure hands nothing over; nothing is used after its release")
    for s, M, hit, static in flow_modules(ctx, lambda n: n in ACQ or n in REL or n in REL_CELL or n in REL_OBJ):
        called = {ir.callee_name(i) for F in M.functions.values() if not F.decl for i in F.insts() if i.op in ("call", "invoke")}
        for F in M.functions.values():
            if F.decl or F.name not in hit:
                continue
            if F.name in static and F.name not in called:
                continue
            if not any(i.op in ("call", "invoke") and ir.callee_name(i) in ACQ for i in F.insts()):
                continue
            ctx.count("functions_with_resources")
            e = Resources(ctx, s, F, M.nonnull.get(F.name, ()))
            e.run()
            ctx.count("abstract_states", e.n)
            ctx.sample("%s:%s: %d abstract states" % (s, F.name, e.n))
    ctx.require("functions_with_resources", 5)
    ctx.require("returns_examined", 20)


# ---------------------------------------------------------------------- C13
def is_status_type(t):
    return t.kind == "int" and t.bits in (1,) or t.kind == "ptr"


def status_functions(mods):
    """Functions whose false/NULL result is a failure: they (or a status function they call) print a diagnostic"""
    fns = {}
    for s, M, hit, static in mods:
        for F in M.functions.values():
            if not F.decl:
                fns.setdefault(F.name, F)
    st = set()
    work = True
    while work:
        work = False
        for F in fns.values():
            if F.name in st or not is_status_type(F.rettype):
                continue
            for i in F.insts():
                if i.op in ("call", "invoke"):
                    n = ir.callee_name(i)
                    if n in st or n in DIAG and any(isinstance(g, ir.Global) and g.name == "stderr" for g in stream(i)):
                        st.add(F.name)
                        work = True
                        break
    return st


def stream(i):
    for v in i.ops:
        if isinstance(v, ir.Inst) and v.op == "load":
            yield v.ops[0]


FALLIBLE = {"malloc": 0, "calloc": 0, "fopen": 0, "stbi_load_from_file": 0, "stbi_load_from_file_16": 0, "mmap": -1,
            "open": -1, "posix_memalign": 12, "fstat": -1}
# refuses only gradients of models that have none; no model lacks them (C16)
CANNOT_FAIL = {"mrcal_project"}


class Failures(typestate.Explorer):
    def __init__(self, ctx, src, F, status, nonnull):
        super().__init__(F)
        self.dom = typestate.dominators(F)
        self.ctx, self.src, self.status, self.nonnull = ctx, src, status, {a for a in F.args if a.index in nonnull}

    val = Resources.val

    def call(self, s, i, n):
        if n in self.status or n in FALLIBLE:
            self.ctx.count("fallible_calls_on_paths")
            ok, no = s.copy(), s.copy()
            self.clobber(ok, i, n)
            self.clobber(no, i, n)
            bad = FALLIBLE.get(n, 0)
            if n == "open":
                ok.env[i] = ("r", i)                    # a descriptor: not negative
            elif bad > 0 or n == "fstat":
                ok.env[i] = ("c", 0)
            else:
                ok.env[i] = ("c", 1) if i.type.kind == "int" else ("nz",)
            no.env[i] = ("c", bad)
            no.facts = no.facts | {(n, i)}
            # an alternative that is tried only when another one failed, and succeeds, makes up for it
            ok.facts = frozenset(f for f in ok.facts if not self.alternative(f[1], i))
            return [ok, no]
        return None

    def alternative(self, first, second):
        t = first.block.term
        if t.op != "br" or len(t.targets) != 2:
            return False
        c, flip = t.ops[0], False
        while isinstance(c, ir.Inst) and c is not first:
            if c.op == "icmp" and c.pred == "eq" or c.op == "xor":
                flip = not flip
            elif c.op not in ("icmp", "trunc", "zext", "freeze"):
                return False
            c = c.ops[0]
        fail = t.targets[0 if flip else 1]
        return fail in self.dom[second.block] and len(fail.preds) == 1

    def at_return(self, s, i, v):
        self.ctx.count("returns_examined")
        if s.facts and v is not None and v != ("c", 0):
            for n, w in sorted(s.facts, key=lambda f: (f[0], f[1].id)):
                self.ctx.violation("C13:%s:%s:%s" % (self.src, self.F.name, n), "%s: %s returns success at %s on a path where %s() failed at %s" % (
                    self.src, self.F.name, i.where(), n, w.where()))


def c13(ctx):
    ctx.rule("on every path on which a fallible call fails (returns false or NULL), the calling function returns false or NULL itself")
    mods = flow_modules(ctx, lambda n: False)
    status = status_functions(mods) - CANNOT_FAIL
    ctx.sample("status functions: " + " ".join(sorted(status)))
    for s, M, hit, static in mods:
        for F in M.functions.values():
            if F.decl or not is_status_type(F.rettype):
                continue
            ctx.count("functions")
            if not any(i.op in ("call", "invoke") and (ir.callee_name(i) in status or ir.callee_name(i) in FALLIBLE) for i in F.insts()):
                continue
            ctx.count("functions_with_fallible_calls")
            e = Failures(ctx, s, F, status, M.nonnull.get(F.name, ()))
            e.run()
            ctx.count("abstract_states", e.n)
    ctx.require("functions_with_fallible_calls", 10)
