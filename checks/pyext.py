"""C12: the Python extension reports every failure as an exception, and restores what it changes.
Path-sensitive typestate over LLVM IR of mrcal-pywrap.c, with per-function summaries."""
import front
import ir
import typestate
from effects import show

SET = {"PyErr_SetString", "PyErr_Format", "PyErr_NoMemory", "PyErr_SetObject", "PyErr_SetNone", "PyErr_BadArgument", "PyErr_FormatV",
       "PyErr_SetFromErrno", "PyErr_BadInternalCall"}
CLEAR = {"PyErr_Clear", "PyErr_Print", "PyErr_Fetch", "PyErr_PrintEx", "PyErr_WriteUnraisable"}
# return NULL without an exception
QUIET_PTR = {"PyDict_GetItem", "PyDict_GetItemString", "PyErr_Occurred", "PyEval_SaveThread", "PyImport_AddModule"}
ZERO_FAILS = {"PyArg_ParseTupleAndKeywords", "PyArg_ParseTuple", "PyArg_UnpackTuple", "PyArg_Parse", "PyArg_VaParseTupleAndKeywords"}
NEG_FAILS = {"PyModule_AddObject", "PyType_Ready", "PyDict_SetItemString", "PyDict_SetItem", "PyList_Append", "PyObject_IsTrue",
             "PyTuple_SetItem", "PyList_SetItem", "PyDict_Update", "PySequence_Contains", "PySet_Contains", "PySet_Add", "PyObject_SetAttrString",
             "PyObject_IsInstance", "PySequence_Size", "PyModule_AddIntConstant", "PyModule_AddStringConstant", "PyObject_SetItem",
             "PyDict_Merge", "PyList_Sort", "PyObject_Size", "PyMapping_Size", "PyObject_IsSubclass", "PyDict_DelItem", "PyDict_DelItemString"}
# results of a failed conversion look like valid values: PyErr_Occurred() tells
AMBIGUOUS = {"PyLong_AsLong", "PyFloat_AsDouble", "PyLong_AsUnsignedLong", "PyLong_AsSize_t"}

OWNED = {"PyLong_FromLong", "PyFloat_FromDouble", "PyUnicode_FromString", "PyUnicode_FromFormat", "PyTuple_New", "PyTuple_Pack", "PyDict_New",
         "PyList_New", "Py_BuildValue", "PyObject_CallObject", "PyObject_CallFunctionObjArgs", "PyObject_CallMethod", "PyObject_CallFunction",
         "PyObject_GetAttrString", "PySequence_GetItem", "PyImport_ImportModule", "PyFrozenSet_New", "PySet_New", "PyBool_FromLong",
         "PyLong_FromSize_t", "PyBytes_FromStringAndSize", "PySequence_Fast", "PyObject_Call", "PyObject_GetItem", "PyDict_Copy", "PyDict_Keys"}
# these fail only for an index out of range or an object of another type, which the type and size checks before them rule out
CANNOT_FAIL = {"PyTuple_GetItem"}
# documented: the factorization is None if it could not be computed
OPTIONAL = {"CHOLMOD_factorization_from_cholmod_sparse"}
# slots of numpy's table of functions that do not fail as used here (a constant type number)
PYARRAY_CANNOT_FAIL = {45: "PyArray_DescrFromType"}


def numpy_slot(i):
    """Index into numpy's table of functions of an indirect call through it"""
    f = i.callee
    while isinstance(f, ir.Inst) and f.op == "bitcast":
        f = f.ops[0]
    if isinstance(f, ir.Inst) and f.op == "load":
        p = f.ops[0]
        off = 0
        if isinstance(p, ir.Inst) and p.op == "gep":
            b, off, var = ir.gep_parts(p)
            p = None if var else b
        if isinstance(p, ir.Inst) and p.op == "load" and isinstance(p.ops[0], ir.Global) and "API" in p.ops[0].name:
            return off // 8
    return None


def is_null(v):
    return v == ("c", 0)


class Exc(typestate.Explorer):
    """facts: 'exc' while an exception is set; ('changed', name) while a setting of the process differs from the caller's"""
    refine_memory = False

    def __init__(self, ctx, src, F, summaries):
        super().__init__(F)
        self.ctx, self.src, self.sum = ctx, src, summaries
        self.merge = typestate.flows_to_return(F) | typestate.flags(F)
        self.out = {}

    def call(self, s, i, n):
        T = i.type
        if isinstance(i.callee, ir.Function):
            for k in self.derefs.get(n, ()):
                if k < len(i.ops):
                    self.on_access(s, i, i.ops[k])
        cal = i.callee if isinstance(i.callee, ir.Function) else None
        if n in SET:
            s.facts |= {"exc"}
            self.clobber(s, i, n)
            if T.kind == "ptr":
                s.env[i] = ("c", 0)
            return [s]
        if n in CLEAR:
            if "exc" in s.facts and "optional" not in s.facts:
                s.facts |= {"swallowed"}
            s.facts -= {"exc", "maybe", "optional"}
            self.clobber(s, i, n)
            return [s]
        if n == "PyErr_Occurred":
            if "exc" in s.facts:
                s.env[i] = ("nz",)
                return [s]
            if "maybe" in s.facts:
                a, b = s.copy(), s.copy()
                a.facts = a.facts - {"maybe"} | {"exc"}
                a.env[i] = ("nz",)
                b.facts = b.facts - {"maybe"}
                b.env[i] = ("c", 0)
                return [a, b]
            s.env[i] = ("c", 0)
            return [s]
        if n in AMBIGUOUS:
            s.facts |= {"maybe"}
            return [s]
        if n == "sigaction":
            key = self.which(i)
            # sigaction(SIGINT, new, &old) changes; sigaction(SIGINT, &old, NULL) restores
            if isinstance(i.ops[2], ir.Const) and i.ops[2].kind == "null":
                s.facts -= {("changed", key)}
                s.env[i] = ("c", 0)
                self.ctx.count("settings_restored_on_paths")
                return [s]
            a, b = s.copy(), s.copy()
            self.clobber(a, i, n)
            self.clobber(b, i, n)
            a.env[i] = ("c", 0)
            a.facts = a.facts | {("changed", key)}
            self.ctx.count("settings_changed_on_paths")
            b.env[i] = ("c", -1)
            return [a, b]
        if cal is not None and not cal.decl and n in self.sum:
            self.ctx.count("calls_by_summary")
            r = []
            for v, f in sorted(self.sum[n], key=repr):
                x = s.copy()
                self.clobber(x, i, n)
                if v is not None and T.kind != "void":
                    x.env[i] = v
                if f == "exc":
                    x.facts = x.facts - {"maybe"} | {"exc"} | ({"optional"} if n in OPTIONAL else set())
                elif f == "swallowed":
                    x.facts = x.facts | {"swallowed"}
                elif f == "clear":
                    x.facts -= {"exc", "maybe"}
                r.append(x)
            return r
        if n in CANNOT_FAIL:
            self.clobber(s, i, n)
            s.env[i] = ("nz",)
            return [s]
        if n is None and numpy_slot(i) in PYARRAY_CANNOT_FAIL:
            self.clobber(s, i, n)
            s.env[i] = ("nz",)
            return [s]
        if n is None or n.startswith("Py"):
            self.ctx.count("python_api_calls_on_paths")
            if T.kind == "ptr" and n not in QUIET_PTR and (n is not None or not self.F.name.startswith("_import")):
                a, b = s.copy(), s.copy()
                self.clobber(a, i, n)
                self.clobber(b, i, n)
                a.env[i] = ("nz",)
                b.env[i] = ("c", 0)
                b.facts |= {"exc"}
                return [a, b]
            if n in ZERO_FAILS or n in NEG_FAILS:
                a, b = s.copy(), s.copy()
                self.clobber(a, i, n)
                self.clobber(b, i, n)
                b.env[i] = ("c", 0) if n in ZERO_FAILS else ("c", -1)
                b.facts |= {"exc"}
                if n in ZERO_FAILS or n in ("PyModule_AddObject", "PyType_Ready", "PyDict_SetItemString", "PyDict_SetItem", "PyList_Append", "PyTuple_SetItem"):
                    a.env[i] = ("nz",) if n in ZERO_FAILS else ("c", 0)
                    return [a, b]
                p, q = a.copy(), a
                p.env[i], q.env[i] = ("c", 0), ("c", 1)
                return [p, q, b] if n != "PySequence_Size" else [self.unk(p, i), b]
        return None

    def on_access(self, s, i, p):
        while isinstance(p, ir.Inst) and p.op in ("gep", "bitcast") and self.val(s, p) is None:
            p = p.ops[0]
        if "exc" in s.facts and isinstance(p, ir.Inst) and self.val(s, p) == ("c", 0):
            self.ctx.violation("C12:%s:%s:use" % (self.src, self.F.name), "%s: %s uses, at %s, a result that is NULL because a call failed" % (
                self.src, self.F.name, i.where()))

    def unk(self, s, i):
        s.env.pop(i, None)
        return s

    def which(self, i):
        v = i.ops[0]
        return v.v if isinstance(v, ir.Const) and v.kind == "int" else "?"

    def at_return(self, s, i, v):
        self.ctx.count("returns_examined")
        e = "exc" if "exc" in s.facts else "swallowed" if "swallowed" in s.facts else None
        if v is not None and v[0] not in ("c", "nz"):
            v = ("nz",)
        if v is not None and v[0] == "c" and v[1] not in (0, 1, -1):
            v = ("nz",)
        self.out.setdefault((v, e), (i, s.path()))
        for f in s.facts:
            if isinstance(f, tuple):
                self.ctx.violation("C12:%s:%s:setting" % (self.src, self.F.name),
                                   "%s: %s returns at %s with the handler of signal %s still replaced" % (self.src, self.F.name, i.where(), f[1]))


def callgraph(M):
    g = {}
    for F in M.functions.values():
        if not F.decl:
            g[F.name] = [ir.callee_name(i) for i in F.insts() if i.op in ("call", "invoke")]
    return g


def c12(ctx):
    ctx.rule("on every path of every function of the extension that Python calls: NULL (or -1 from an initialiser) is returned if and only if an "
             "exception is set; a helper that fails sets an exception or its caller does; a replaced signal handler is restored before returning")
    for s in ("mrcal-pywrap.c", "python-cameramodel-converter.c"):
        examine(ctx, s)
    ctx.require("outcomes_of_entry_points", 100)
    ctx.require("settings_changed_on_paths", 1)
    ctx.require("settings_restored_on_paths", 1)


def examine(ctx, s):
    M = ir.Module(front.opt(front.compile_bc(s), "sroa,mem2reg"))
    g = callgraph(M)
    order, seen = [], set()

    def visit(n):
        if n in seen or n not in g:
            return
        seen.add(n)
        for c in g[n]:
            if c:
                visit(c)
        order.append(n)
    for n in g:
        visit(n)
    # functions reachable only through tables of methods: Python calls them
    called = {c for n in g for c in g[n] if c}
    taken = {v.name for F in M.functions.values() if not F.decl for i in F.insts() if i.op in ("call", "invoke", "store")
             for v in i.ops if isinstance(v, ir.Function)}
    # arguments that a function reads or writes through in any case
    derefs = {}
    for n in order:
        F = M.functions[n]
        d = set()
        for i in F.blocks[0].insts:
            ps = [i.ops[0]] if i.op == "load" else [i.ops[1]] if i.op == "store" else [
                i.ops[k] for k in derefs.get(ir.callee_name(i), ()) if k < len(i.ops)] if i.op == "call" else []
            for p in ps:
                while isinstance(p, ir.Inst) and p.op in ("gep", "bitcast"):
                    p = p.ops[0]
                if isinstance(p, ir.Arg):
                    d.add(p.index)
        derefs[n] = d
    sums = {}
    for n in order:
        F = M.functions[n]
        ctx.count("functions")
        if n in ("_import_array", "_import_umath"):
            sums[n] = {(("c", 0), None), (("c", -1), "exc")}
            continue
        e = Exc(ctx, s, F, sums)
        e.derefs = derefs
        e.run()
        ctx.count("abstract_states", e.n)
        sums[n] = set(e.out)
        if F.rettype.kind == "int" and (("c", -1), "exc") in sums[n]:
            # a count, or -1 on failure
            sums[n] = {(("nn",), x) if v is None else (v, x) for v, x in sums[n]}
        entry = n not in called
        if F.rettype.kind == "int" and F.rettype.bits <= 8 and n in taken:
            # a callback of the library's: success is true
            for (v, x), (i, path) in sorted(e.out.items(), key=lambda z: repr(z[0])):
                ctx.count("outcomes_of_callbacks")
                if (v is None or v != ("c", 0)) and x is not None:
                    ctx.violation("C12:%s:%s:pending" % (s, n), "%s: the callback %s returns success at %s on a path on which a call failed" % (s, n, i.where()))
        if F.rettype.kind == "ptr" or entry and F.rettype.kind == "int" and F.rettype.bits > 8:
            for (v, x), (i, path) in sorted(e.out.items(), key=lambda z: repr(z[0])):
                if F.rettype.kind == "int":
                    # slots of types return -1 on failure, converters for PyArg_Parse... return 0 on failure and 1 on success
                    convention = (-1, 0) if any(w == ("c", -1) for w, _ in e.out) else (0, 1)
                    bad = v == ("c", convention[0])
                    good = v == ("c", convention[1])
                else:
                    bad, good = v == ("c", 0), v is not None and v != ("c", 0)
                if not entry and F.linkage in (8, 9):
                    continue
                ctx.count("outcomes_of_entry_points")
                if bad and x != "exc":
                    ctx.violation("C12:%s:%s:silent" % (s, n), "%s: %s returns failure at %s on a path that sets no exception (branches at lines %s)" % (s, n, i.where(), path))
                if good and x == "swallowed":
                    ctx.violation("C12:%s:%s:swallowed" % (s, n), "%s: %s returns success at %s on a path that discards the exception of a failed call" % (s, n, i.where()))
                if good and x == "exc":
                    ctx.violation("C12:%s:%s:pending" % (s, n), "%s: %s returns success at %s on a path with an exception set (branches at lines %s)" % (s, n, i.where(), path))
        ctx.sample("%s: %s" % (n, sorted(sums[n], key=repr)), 40)
