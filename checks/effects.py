"""C14, C15: effects.  A whole-program effect analysis over LLVM IR (C and C++) and over the Python syntax trees:
which functions write process-wide state, reach a stream, a file, or the process itself."""
import ast
import os

import front
import ir
import pyalias
from frames import python_files

# library calls whose result or effect is process-wide state
NONREENTRANT = {"strtok", "localtime", "gmtime", "asctime", "ctime", "setlocale", "rand", "srand", "random", "srandom", "drand48", "lrand48",
                "mrand48", "srand48", "setenv", "putenv", "unsetenv", "getenv", "tmpnam", "readdir", "basename", "dirname", "strerror_l",
                "fesetround", "feenableexcept", "lgamma", "time", "clock", "gettimeofday", "umask", "chdir", "fchdir"}
DIAG = {"fprintf", "fwrite", "fputs", "fputc", "dprintf", "vfprintf"}
PROCESS = {"exit", "_exit", "_Exit", "quick_exit", "abort", "raise", "kill", "signal", "sigaction", "system", "popen", "fork", "vfork", "execl",
           "execv", "execvp", "execlp", "execve", "posix_spawn", "atexit", "longjmp", "_longjmp", "siglongjmp", "pthread_exit", "setrlimit", "alarm"}
STDOUT = {"PySys_WriteStdout", "PySys_FormatStdout", "printf", "puts", "putchar", "vprintf", "putchar_unlocked"}
FILES_OUT = {"unlink", "remove", "rename", "mkdir", "rmdir", "truncate", "ftruncate", "symlink", "link", "chmod", "chown", "mkstemp", "mkdtemp",
             "tmpfile", "creat", "creat64"}
OPENERS = {"fopen": "f", "fopen64": "f", "freopen": "f", "open": "o", "open64": "o", "openat": "oa"}


EXTENSIONS = ["mrcal-pywrap.c", "mrcal", "poseutils", "triangulation"]


def modules(ctx, more=()):
    srcs = front.lib_sources() + [m if m.endswith(".c") else os.path.basename(front.npsp_source(m)) for m in more]
    bcs = front.compile_all(srcs)
    out = []
    for s, b in zip(srcs, bcs):
        out.append((s, ir.Module(front.opt(b, "sroa,early-cse,simplifycfg"))))
        ctx.count("translation_units")
    return out


def operands(i):
    r = list(i.ops)
    if i.op == "phi":
        r = [v for v, _ in i.incoming]
    return r


def consts(v, seen=()):
    """Globals and functions mentioned by a constant expression"""
    if isinstance(v, (ir.Global, ir.Function)):
        yield v
    elif isinstance(v, ir.Const) and v.ops:
        for o in v.ops:
            yield from consts(o)


def show(i):
    return "%s (%s)" % (i.block.fn.name, i.where())


# ------------------------------------------------------------------ mutable globals
def global_writes(M):
    """For every writable global defined in M: [(kind, instruction)] of the instructions that may change it, and its loads"""
    W, L = {}, {}
    roots = {g.name: g for g in M.globals.values() if not g.const and not g.decl and not g.name.startswith("llvm.")}
    for F in M.functions.values():
        if F.decl:
            continue
        deriv = {}
        work = True
        while work:
            work = False
            for i in F.insts():
                if i.op in ("gep", "bitcast", "phi", "select", "addrspacecast") or i.op == "call" and (
                        ir.callee_name(i) or "").startswith("llvm.threadlocal"):
                    s = set()
                    for v in operands(i):
                        s |= base(v, deriv, roots)
                    if s - deriv.get(i, set()):
                        deriv[i] = deriv.get(i, set()) | s
                        work = True
        for i in F.insts():
            if i.op == "store":
                for g in base(i.ops[1], deriv, roots):
                    W.setdefault(g, []).append(("stored to", i))
                for g in base(i.ops[0], deriv, roots):
                    W.setdefault(g, []).append(("its address is stored", i))
            elif i.op == "load":
                for g in base(i.ops[0], deriv, roots):
                    L.setdefault(g, []).append(i)
            elif i.op in ("call", "invoke"):
                n = ir.callee_name(i) or "?"
                if n.startswith("llvm.threadlocal"):
                    continue
                for k, v in enumerate(i.ops):
                    for g in base(v, deriv, roots):
                        if n.startswith(("llvm.memcpy", "llvm.memmove")) and k == 1:
                            continue
                        if n.startswith(("llvm.lifetime", "llvm.dbg")):
                            continue
                        if n in DIAG or n in ("strcmp", "strncmp", "strlen", "memcmp"):
                            continue
                        W.setdefault(g, []).append(("passed to %s()" % n, i))
            elif i.op in ("atomicrmw", "cmpxchg"):
                for g in base(i.ops[0], deriv, roots):
                    W.setdefault(g, []).append(("stored to", i))
    return roots, W, L


def base(v, deriv, roots):
    if isinstance(v, ir.Inst):
        return deriv.get(v, set())
    return {g.name for g in consts(v) if isinstance(g, ir.Global) and g.name in roots}


def is_latch(M, g, writes, loads):
    """A flag that does nothing but limit how often a diagnostic is printed: stores are of constants, every load only
    decides a branch, and what that branch controls is the diagnostic and the flag"""
    for kind, i in writes:
        if kind != "stored to" or not isinstance(i.ops[0], ir.Const) or i.ops[0].kind != "int":
            return False
    for l in loads:
        users = [l]
        F = l.block.fn
        brs = []
        while users:
            u = users.pop()
            for i in F.insts():
                if u in operands(i):
                    if i.op in ("zext", "sext", "trunc", "icmp", "xor", "freeze"):
                        users.append(i)
                    elif i.op == "br":
                        brs.append(i)
                    else:
                        return False
        for b in brs:
            B = b.block
            a, c = b.targets
            ra, rc = reach(a), reach(c)
            join = [x for x in ra if x in rc]
            side = [x for x in ra if x not in rc] + [x for x in rc if x not in ra]
            # inside a loop everything reaches everything: fall back to the blocks one arm dominates
            for x in (a, c):
                if len(x.preds) == 1 and x not in side:
                    side.append(x)
            for x in side:
                for i in x.insts:
                    if i.op == "store" and any(k == "stored to" and i is w for k, w in writes):
                        continue
                    if i.op == "call" and (ir.callee_name(i) in DIAG or (ir.callee_name(i) or "").startswith("llvm.lifetime")):
                        continue
                    if i.op in ("br", "load", "gep"):
                        continue
                    return False
            for x in join:
                for i in x.insts:
                    if i.op == "phi":
                        vals = {id(v) for v, p in i.incoming if p in side or p is B}
                        if len(vals) > 1:
                            return False
    return True


def reach(b):
    seen, st = [], [b]
    while st:
        x = st.pop()
        if x not in seen:
            seen.append(x)
            st += x.succs
    return seen


def carried(writes, loads):
    """Loads of a thread-local variable that may see a value from an earlier call: not preceded, on some path of the same
    function, by a store"""
    st = {i for k, i in writes if k == "stored to"}
    for F in {l.block.fn for l in loads}:
        inn = {b: True for b in F.blocks}
        inn[F.blocks[0]] = False

        def out(b):
            return inn[b] or any(i in st for i in b.insts)
        work = True
        while work:
            work = False
            for b in F.blocks[1:]:
                v = all(out(p) for p in b.preds)
                if v != inn[b]:
                    inn[b] = v
                    work = True
        for b in F.blocks:
            seen = inn[b]
            for i in b.insts:
                if i in st:
                    seen = True
                elif i in loads and not seen:
                    yield i


def init_only(M):
    """Functions that run only while the extension module is imported"""
    callers = {}
    for F in M.functions.values():
        for i in ([] if F.decl else F.insts()):
            for v in operands(i) + ([i.callee] if i.op in ("call", "invoke") and i.callee is not None else []):
                for g in consts(v):
                    if isinstance(g, ir.Function):
                        callers.setdefault(g.name, set()).add(F.name)
    ok = {n for n in M.functions if n.startswith("PyInit_")}
    work = True
    while work:
        work = False
        for F in M.functions.values():
            if not F.decl and F.name not in ok and callers.get(F.name) and callers[F.name] <= ok and F.linkage in (8, 9):
                ok.add(F.name)
                work = True
    return ok


def c14(ctx):
    ctx.rule("no function of the library writes a variable with static storage, or lets its address out (a flag that does nothing but "
             "limit how often a diagnostic is printed is the one exception), or calls a C library function with process-wide state; no Python "
             "function of the package writes a module's, a class's or another function's attributes, mutates a module-level object or a default "
             "argument, or changes settings of the process")
    for s, M in modules(ctx, EXTENSIONS):
        roots, W, L = global_writes(M)
        ext = any(s == e or s.startswith(e + "-npsp") for e in EXTENSIONS)
        init = init_only(M) if ext else set()
        for n, g in sorted(roots.items()):
            ctx.count("static_variables")
            if g.tls:
                ctx.count("thread_local_variables")
                if n.startswith("yyt") and "_GENERATED" in s:
                    continue                    # re2c's tag variables: its automaton sets every tag before it reads it
                for i in carried(W.get(n, []), L.get(n, [])):
                    ctx.violation("C14:%s:%s" % (s, n), "%s: the thread-local variable %s is read in %s before this call has set it" % (s, n, show(i)))
                    break
                continue
            if ext:
                W[n] = [(k, i) for k, i in W.get(n, []) if i.block.fn.name not in init and not (
                    k.startswith("passed") and g.valtype.kind == "struct" and "_typeobject" in (g.valtype.name or ""))]
            if n == "PyArray_API" or n.endswith("_ARRAY_API"):
                # numpy's import table: written only by its own idempotent import
                bad = [(k, i) for k, i in W.get(n, []) if not i.block.fn.name.endswith("_import_array")]
                if not bad:
                    continue
            if W.get(n):
                if is_latch(M, g, W[n], L.get(n, [])):
                    ctx.count("diagnostic_flags")
                    ctx.sample("%s: %s only limits a diagnostic" % (s, n))
                    continue
                k, i = W[n][0]
                ctx.violation("C14:%s:%s" % (s, n), "%s: the static variable %s is %s in %s: the state survives the call and is shared by all threads" % (
                    s, n, k, show(i)))
        for F in M.functions.values():
            if F.decl:
                continue
            ctx.count("c_functions")
            for i in F.insts():
                if i.op in ("call", "invoke"):
                    ctx.count("calls")
                    n = ir.callee_name(i)
                    if n in NONREENTRANT:
                        ctx.violation("C14:%s:%s:%s" % (s, F.name, n), "%s: %s calls %s(), which uses process-wide state" % (s, show(i), n))
    latches = set()
    for f, t in python_files():
        if f.startswith("mrcal/"):
            st = PyState(ctx, f)
            st.run(ast.parse(t))
            latches |= {(os.path.basename(f), n.lineno) for n in st.latches}
    P = pyalias.Package(os.path.join(front.REPO, "mrcal"))
    for F in P.functions():
        e = P.entry(F)
        ctx.count("python_alias_analyses")
        for r, (f, line, how) in sorted(e.mut.items()):
            if r[0] in "gmd" and (f, line) not in latches:
                what = {"g": "the module-level object %s", "m": "the imported module's object %s", "d": "the default value of the argument %s"}[r[0]]
                ctx.violation("C14:alias:%s:%s" % (f, r), "%s:%s: %s() changes %s (%s)" % (f, line, F.qual(), what % r[2:], how))
    ctx.require("c_functions", 200)
    ctx.require("python_functions", 200)
    ctx.require("static_variables", 2)


MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "add", "discard", "sort", "reverse", "popitem", "fill",
            "resize", "itemset", "put"}
SETTINGS = {"np.seterr", "np.seterrcall", "np.set_printoptions", "np.random.seed", "np.random.set_state", "os.chdir", "os.putenv", "os.unsetenv",
            "os.umask", "locale.setlocale", "signal.signal", "random.seed", "warnings.filterwarnings", "warnings.simplefilter", "sys.setrecursionlimit",
            "numpy.seterr", "numpy.random.seed", "sys.path.append", "sys.path.insert", "np.setbufsize", "socket.setdefaulttimeout", "os.environ.update"}


READERS = {"get", "items", "keys", "values", "match", "search", "sub", "findall", "finditer", "fullmatch", "split", "format", "join", "copy", "index", "count",
           "astype", "reshape", "ravel", "mean", "sum", "min", "max", "dot", "tolist", "strip", "startswith", "endswith", "encode", "decode"}


class PyState:
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def hit(self, fn, n, what, key):
        self.ctx.violation("C14:%s:%s:%s" % (self.f, fn, key), "%s:%s: %s() %s" % (self.f, n.lineno, fn, what))

    def run(self, tree):
        self.modvars, self.imports, self.defs = set(), set(), set()
        for n in tree.body:
            for m in ast.walk(n) if isinstance(n, (ast.If, ast.Try, ast.For, ast.With)) else [n]:
                if isinstance(m, ast.Assign):
                    self.modvars |= {x.id for t in m.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
                elif isinstance(m, (ast.AnnAssign, ast.AugAssign)) and isinstance(m.target, ast.Name):
                    self.modvars.add(m.target.id)
                elif isinstance(m, (ast.Import, ast.ImportFrom)):
                    self.imports |= {(a.asname or a.name).split(".")[0] for a in m.names}
                elif isinstance(m, (ast.FunctionDef, ast.ClassDef)):
                    self.defs.add(m.name)
        self.objects = {t.id for n in tree.body if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) for t in n.targets if isinstance(t, ast.Name)}
        self.latches = self.latch(tree)
        for n in ast.walk(tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and (n.id if isinstance(n, ast.Name) else n.attr) in ("lru_cache", "cached_property") or \
                    isinstance(n, ast.Attribute) and ast.unparse(n) == "functools.cache":
                self.hit("module", n, "keeps results in a process-wide cache (%s)" % ast.unparse(n), "cache")
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                self.fn(n, getattr(n, "name", "lambda"))

    def latch(self, tree):
        """Statements 'X.flag = constant' inside 'if not X.flag:' where the body, apart from that, only writes to stderr, and
        nothing else in the file uses the flag"""
        ok = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.If) and not n.orelse:
                st = [m for m in n.body if isinstance(m, ast.Assign) and isinstance(m.value, ast.Constant) and len(m.targets) == 1]
                rest = [m for m in n.body if m not in st]
                if len(st) != 1 or not all(isinstance(m, ast.Expr) and isinstance(m.value, ast.Call) and (
                        ast.unparse(m.value.func).startswith("sys.stderr.write") or ast.unparse(m.value.func) == "print" and any(
                            k.arg == "file" and ast.unparse(k.value) == "sys.stderr" for k in m.value.keywords)) for m in rest):
                    continue
                t = st[0].targets[0]
                flag = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else None
                inside = {x for x in ast.walk(n.test)} | {x for x in ast.walk(st[0])}
                others = [x for x in ast.walk(tree) if x not in inside and (
                    isinstance(x, ast.Attribute) and x.attr == flag or isinstance(x, ast.Name) and x.id == flag
                    or isinstance(x, ast.Constant) and x.value == flag) and not isinstance(getattr(x, "ctx", None), ast.Store)]
                if flag and not others:
                    ok.add(st[0])
        return ok

    def fn(self, F, name):
        self.ctx.count("python_functions")
        a = F.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        pos = a.posonlyargs + a.args
        mutdef = {p.arg for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if self.mutable(d)}
        mutdef |= {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None and self.mutable(d)}
        local, glob = set(params), set()
        body = F.body if isinstance(F.body, list) else [F.body]
        inner = []
        st = list(body)
        nodes = []
        while st:
            n = st.pop()
            nodes.append(n)
            if isinstance(n, ast.Global):
                glob |= set(n.names)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                local.add(n.name)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                local.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                pass
            st += list(ast.iter_child_nodes(n))
        # a name bound by an enclosing function is that function's local: closures are not process-wide
        for n in nodes:
            if n in self.latches:
                self.ctx.count("diagnostic_flags")
                continue
            if isinstance(n, ast.Global):
                for x in n.names:
                    if any(isinstance(m, ast.Name) and m.id == x and isinstance(m.ctx, (ast.Store, ast.Del)) for m in nodes):
                        self.hit(name, n, "assigns the module's variable '%s'" % x, x)
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            for t in tg:
                for t in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                    if isinstance(t, (ast.Attribute, ast.Subscript)):
                        self.target(name, n, t, local, glob, mutdef)
                    elif isinstance(n, ast.AugAssign) and isinstance(t, ast.Name) and t.id in mutdef:
                        self.hit(name, n, "changes the default value of its argument '%s' in place" % t.id, t.id)
            if isinstance(n, ast.Call):
                s = ast.unparse(n.func)
                if s in SETTINGS:
                    self.hit(name, n, "calls %s(): a setting of the whole process" % s, s)
                if s == "setattr" and n.args:
                    self.target(name, n, ast.Attribute(value=n.args[0], attr="?"), local, glob, mutdef)
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    self.target(name, n, ast.Attribute(value=n.func.value, attr=n.func.attr), local, glob, mutdef, call=True)
                for k in n.keywords:
                    if k.arg == "out":
                        self.target(name, n, ast.Subscript(value=k.value), local, glob, mutdef)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                x = n.func.value.id
                if x in self.objects and x not in local and n.func.attr not in READERS:
                    self.hit(name, n, "calls %s() on the module-level object '%s', which may keep state" % (n.func.attr, x), x)

    def mutable(self, d):
        return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or \
            isinstance(d, ast.Call) and ast.unparse(d.func) in ("list", "dict", "set", "np.zeros", "np.array", "np.ones", "np.empty", "bytearray")

    def target(self, name, n, t, local, glob, mutdef, call=False):
        root, depth = t.value, 1
        while isinstance(root, (ast.Attribute, ast.Subscript)):
            root, depth = root.value, depth + 1
        if not isinstance(root, ast.Name):
            return
        r = root.id
        self.ctx.count("stores")
        what = "calls %s()" % t.attr if call else "stores into it"
        if r in mutdef:
            self.hit(name, n, "changes the default value of its argument '%s' in place (%s)" % (r, what), r)
        if r in local and r not in glob:
            return
        if r in self.modvars or r in glob:
            self.hit(name, n, "changes the module-level object '%s' (%s)" % (r, what), r)
        elif r in self.imports and not call:
            self.hit(name, n, "changes an attribute of the module '%s'" % r, r)
        elif r in self.imports and isinstance(t.value, (ast.Attribute, ast.Subscript)) and ast.unparse(t.value) in (
                "os.environ", "sys.path", "sys.argv", "sys.modules"):
            self.hit(name, n, "changes %s" % ast.unparse(t.value), r)
        elif r in self.defs:
            self.hit(name, n, "keeps state in an attribute of '%s'" % r, r)


# ------------------------------------------------------------------ C15
def origin(v, F, callers, seen):
    """Where a pointer value comes from: set of ('arg', function, index) / ('const', text) / ('other', text)"""
    if isinstance(v, ir.Const) and v.kind != "expr" or isinstance(v, ir.Global):
        return {("const", repr(v))}
    if isinstance(v, ir.Const):
        return set().union(*[origin(o, F, callers, seen) for o in v.ops[:1]])
    if isinstance(v, ir.Arg):
        k = (F.name, v.index)
        if k in seen:
            return set()
        if F.linkage in (8, 9) and callers.get(F.name):             # internal, private
            r = set()
            for G, i in callers[F.name]:
                r |= origin(i.ops[v.index], G, callers, seen | {k})
            return r
        return {("arg", F.name, v.index, v.name)}
    if isinstance(v, ir.Inst):
        if v in seen:
            return set()
        if v.op in ("bitcast", "gep"):
            return origin(v.ops[0], F, callers, seen | {v})
        if v.op in ("phi", "select"):
            ops = [x for x, _ in v.incoming] if v.op == "phi" else v.ops[1:]
            return set().union(*[origin(o, F, callers, seen | {v}) for o in ops])
    return {("other", repr(v))}


def cstr(v):
    if isinstance(v, ir.Global) and v.init is not None and v.init.kind == "str":
        s = v.init.v
        return (s.decode("latin1") if isinstance(s, bytes) else s).rstrip("\0")
    return None


def c15(ctx):
    ctx.rule("no function of the library refers to stdout, ends, signals or replaces the process, or removes or renames files; every file it opens "
             "is the one its caller named, read-only except in the functions that save or write; in the Python package, printing goes to stderr and "
             "sys.exit() is never called (interactive plotting excepted)")
    for s, M in modules(ctx, EXTENSIONS):
        callers = {}
        for F in M.functions.values():
            if not F.decl:
                for i in F.insts():
                    if i.op in ("call", "invoke"):
                        n = ir.callee_name(i)
                        if n:
                            callers.setdefault(n, []).append((F, i))
        for F in M.functions.values():
            if F.decl:
                continue
            ctx.count("c_functions")
            for i in F.insts():
                for v in operands(i):
                    for g in consts(v):
                        if isinstance(g, ir.Global) and g.name in ("stdout", "_ZSt4cout", "stdin"):
                            ctx.violation("C15:%s:%s:%s" % (s, F.name, g.name), "%s: %s uses %s" % (s, show(i), g.name))
                if i.op not in ("call", "invoke"):
                    continue
                n = ir.callee_name(i)
                ctx.count("calls")
                if n in STDOUT:
                    ctx.violation("C15:%s:%s:stdout" % (s, F.name), "%s: %s writes to stdout (%s)" % (s, show(i), n))
                elif n and n.endswith("longjmp") and any("setjmp" in (ir.callee_name(j) or "") for G in M.functions.values() for j in G.insts()):
                    ctx.count("longjmp_within_unit")            # libjpeg's error exit, caught in the same file
                elif n == "sigaction" and any(s == e or s.startswith(e + "-npsp") for e in EXTENSIONS):
                    ctx.count("sigint_handling")                # replaced during a solve, and restored: see C12
                elif n in PROCESS:
                    ctx.violation("C15:%s:%s:%s" % (s, F.name, n), "%s: %s calls %s()" % (s, show(i), n))
                elif n in ("write", "writev", "pwrite") and isinstance(i.ops[0], ir.Const) and i.ops[0].kind == "int" and i.ops[0].v in (0, 1):
                    ctx.violation("C15:%s:%s:stdout" % (s, F.name), "%s: %s writes to stdout (%s)" % (s, show(i), n))
                elif n in FILES_OUT:
                    ctx.violation("C15:%s:%s:%s" % (s, F.name, n), "%s: %s calls %s()" % (s, show(i), n))
                elif n in OPENERS:
                    ctx.count("files_opened")
                    p = i.ops[1] if OPENERS[n] == "oa" else i.ops[0]
                    o = origin(p, F, callers, frozenset())
                    ctx.sample("%s: %s opens %s" % (s, show(i), sorted(o)))
                    entry = {x[1] for x in o if x[0] == "arg"}
                    for x in o:
                        if x[0] != "arg":
                            ctx.violation("C15:%s:%s:path" % (s, F.name), "%s: %s opens a file that the caller did not name (%s)" % (s, show(i), x[1]))
                    writes = None
                    if OPENERS[n] == "f":
                        modes = [cstr(m) for m in leaves(i.ops[1])]
                        writes = any(m is None or set(m) & set("wa+") for m in modes)
                    else:
                        fl = i.ops[2] if OPENERS[n] == "oa" else i.ops[1]
                        writes = not (isinstance(fl, ir.Const) and fl.kind == "int" and fl.v & 0o3 == 0 and not fl.v & 0o1100)
                    if writes:
                        ctx.count("files_written")
                        for e in entry or {F.name}:
                            if not any(w in e for w in ("write", "save")):
                                ctx.violation("C15:%s:%s:mode" % (s, F.name), "%s: %s opens a file for writing on behalf of %s()" % (s, show(i), e))
                elif n == "mmap" or n == "mmap64":
                    pr, fl = i.ops[2], i.ops[3]
                    if not (pr.kind == "int" and pr.v & 2 == 0 or fl.kind == "int" and fl.v & 2):
                        ctx.violation("C15:%s:%s:mmap" % (s, F.name), "%s: %s maps a file shared and writable" % (s, show(i)))
    for f, t in python_files():
        if f.startswith("mrcal/"):
            _py15(ctx, f, ast.parse(t))
    ctx.require("c_functions", 200)
    ctx.require("files_opened", 3)


def leaves(v):
    if isinstance(v, ir.Inst) and v.op in ("phi", "select"):
        ops = [x for x, _ in v.incoming] if v.op == "phi" else v.ops[1:]
        return [y for o in ops for y in leaves(o)]
    return [v]


ENDS = {"sys.exit", "os._exit", "exit", "quit", "os.abort", "os.kill", "os.killpg", "signal.raise_signal", "signal.alarm", "os.execv", "os.execvp",
        "os.execl", "os.execlp", "os.fork", "signal.pthread_kill"}
REMOVES = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "shutil.rmtree", "os.truncate", "os.rename", "os.renames", "os.replace", "shutil.move",
           "os.mkdir", "os.makedirs", "os.symlink", "os.link", "os.chmod", "os.mkfifo"}
WRITERS = {"np.save": 0, "np.savez": 0, "np.savez_compressed": 0, "np.savetxt": 0, "cv2.imwrite": 0, "mrcal.save_image": 0, "save_image": 0,
           "shutil.copy": 1, "shutil.copyfile": 1, "shutil.copy2": 1, "pickle.dump": 1, "json.dump": 1}
SPAWNS = {"os.system", "os.popen", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.Popen", "os.spawnl", "os.spawnv",
          "subprocess.check_output"}

def _py15(ctx, f, tree):
    class V(ast.NodeVisitor):
        fn = ["<module>"]
        defs = []

        def visit_FunctionDef(self, n):
            ctx.count("python_functions")
            self.fn.append(n.name)
            self.defs.append(n)
            self.generic_visit(n)
            self.fn.pop()
            self.defs.pop()

        def visit_If(self, n):
            if isinstance(n.test, ast.Constant):
                for x in n.body if n.test.value else n.orelse:
                    self.visit(x)
                return
            self.generic_visit(n)

        def hit(self, n, key, what):
            ctx.violation("C15:%s:%s:%s" % (f, self.fn[-1], key), "%s:%s: %s() %s" % (f, n.lineno, self.fn[-1], what))

        def block(self, body):
            for x in body:
                self.visit(x)
                if isinstance(x, (ast.Raise, ast.Return, ast.Continue, ast.Break)):
                    break

        def generic_visit(self, n):
            for name, v in ast.iter_fields(n):
                if name in ("body", "orelse", "finalbody") and isinstance(v, list):
                    self.block(v)               # what follows raise/return is never run
                elif isinstance(v, list):
                    for x in v:
                        if isinstance(x, ast.AST):
                            self.visit(x)
                elif isinstance(v, ast.AST):
                    self.visit(v)

        def named(self, e, depth=0):
            """Is the path (or stream) exactly what the caller gave?"""
            if depth > 6:
                return True
            if isinstance(e, (ast.BinOp, ast.JoinedStr, ast.Constant)):
                return False
            if isinstance(e, ast.Call):
                s = ast.unparse(e.func)
                if s in ("str", "os.fspath", "os.path.expanduser", "os.path.abspath", "os.path.realpath"):
                    return self.named(e.args[0], depth + 1)
                return s.split(".")[-1] in ("BytesIO", "StringIO", "open", "TemporaryFile", "NamedTemporaryFile", "fdopen", "mkstemp")
            if isinstance(e, ast.IfExp):
                return self.named(e.body, depth + 1) and self.named(e.orelse, depth + 1)
            if isinstance(e, ast.Name):
                for d in reversed(self.defs):
                    a = d.args
                    if e.id in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
                        vs = self.assigned(d, e.id)
                        return all(self.named(v, depth + 1) for v in vs if ast.unparse(v) != e.id)
                    vs = self.assigned(d, e.id)
                    if vs:
                        return all(self.named(v, depth + 1) for v in vs)
            return True

        def assigned(self, d, x):
            return [n.value for n in ast.walk(d) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in n.targets)] + \
                [n for n in ast.walk(d) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == x
                 for n in [ast.BinOp(left=n.target, op=n.op, right=n.value)]]

        def interactive(self):
            return any(x.startswith(("show_", "mkplot", "_show")) for x in self.fn)

        def visit_Attribute(self, n):
            if ast.unparse(n) in ("sys.stdout", "sys.__stdout__") and not self.interactive():
                self.hit(n, "stdout", "uses stdout")
            self.generic_visit(n)

        def visit_ImportFrom(self, n):
            if n.module == "sys" and any(a.name in ("stdout", "exit", "__stdout__") for a in n.names):
                self.hit(n, "stdout", "imports sys.stdout or sys.exit")
            self.generic_visit(n)

        def visit_Raise(self, n):
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            if isinstance(e, ast.Name) and e.id in ("SystemExit", "KeyboardInterrupt"):
                self.hit(n, "exit", "ends the process (raises %s)" % e.id)
            self.generic_visit(n)

        def visit_Call(self, n):
            s = ast.unparse(n.func)
            if s == "print" or s.endswith("pprint") or s == "pp":
                ctx.count("prints")
                to = [k.value for k in n.keywords if k.arg in ("file", "stream")]
                if (not to or isinstance(to[0], ast.Constant) and to[0].value is None) and not self.interactive():
                    self.hit(n, "print", "prints to stdout")
            elif s in ENDS:
                self.hit(n, "exit", "ends the process (%s)" % s)
            elif s in REMOVES or s.endswith((".unlink", ".rmdir")) and not s.startswith("os."):
                dest = n.args[1] if len(n.args) > 1 else None
                # a temporary file of its own, moved to where the caller asked
                if not (s in ("os.rename", "os.replace", "shutil.move") and isinstance(dest, ast.Name) and self.named(dest)):
                    self.hit(n, "remove", "removes, renames or creates files (%s)" % s)
                else:
                    ctx.count("files_moved_to_the_caller")
            elif s in SPAWNS:
                ctx.count("processes_started")
                to = {k.arg: k.value for k in n.keywords}
                if s.startswith("os.") and s != "os.popen" or s not in ("os.popen", "subprocess.check_output") and "stdout" not in to and "capture_output" not in to:
                    self.hit(n, "spawn", "starts a process that writes to the caller's stdout (%s)" % s)
            elif s in WRITERS and len(n.args) > WRITERS[s]:
                ctx.count("files_opened_by_python")
                if not self.named(n.args[WRITERS[s]]) and not self.interactive():
                    self.hit(n, "path", "writes a file that its caller did not name (%s)" % ast.unparse(n.args[WRITERS[s]]))
            elif s == "open" and n.args:
                ctx.count("files_opened_by_python")
                mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "mode"), None)
                m = mode.value if isinstance(mode, ast.Constant) else ("r" if mode is None else None)
                if m is None or set(m) & set("wax+"):
                    if not any("write" in x or "save" in x for x in self.fn):
                        self.hit(n, "open", "opens a file for writing")
                    if not self.named(n.args[0]):
                        self.hit(n, "path", "opens a file for writing that its caller did not name (%s)" % ast.unparse(n.args[0]))
                if isinstance(n.args[0], ast.Constant) or isinstance(n.args[0], ast.JoinedStr):
                    self.hit(n, "path", "opens a file that its caller did not name")
            self.generic_visit(n)
    V().visit(tree)
