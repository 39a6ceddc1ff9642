"""C16: the Python extension keeps the reference counts of Python objects balanced.
Path-sensitive typestate over LLVM IR of the extension, with its own static functions inlined."""
import front
import ir
import typestate
from pyext import OWNED, QUIET_PTR, ZERO_FAILS, NEG_FAILS, SET, numpy_slot

INC = {"Py_INCREF": False, "Py_XINCREF": True, "_Py_IncRef": False, "Py_IncRef": True, "Py_NewRef": False, "_Py_NewRef": False, "Py_XNewRef": True,
       "_Py_XNewRef": True}
DEC = {"Py_DECREF": False, "Py_XDECREF": True, "_Py_DecRef": False, "Py_DecRef": True}
# call -> index of the argument whose reference it takes over, and whether it does so only when it succeeds
STEAL = {"PyTuple_SetItem": (2, False), "PyList_SetItem": (2, False), "PyModule_AddObject": (2, True), "PyTuple_SET_ITEM": (2, False),
         "PyList_SET_ITEM": (2, False), "PyStructSequence_SetItem": (2, False), "PyModule_Add": (2, False)}
# call -> arguments of which it keeps a reference of its own
KEEP = {"PyDict_SetItem": (1, 2), "PyDict_SetItemString": (2,), "PyList_Append": (1,), "PySet_Add": (1,), "PyObject_SetAttrString": (2,),
        "PyObject_SetItem": (1, 2), "PyModule_AddObjectRef": (2,)}
BORROWED = (QUIET_PTR - {"PyErr_Occurred", "PyEval_SaveThread"}) | {"PyTuple_GetItem", "PyList_GetItem", "PyTuple_GET_ITEM", "PyList_GET_ITEM"}
NEW = OWNED | {"PyModule_Create2", "_PyObject_New", "PyUnicode_FromStringAndSize", "PyObject_GetAttr", "PyObject_GetIter", "PyIter_Next",
               "PySequence_Tuple", "PySequence_List", "PyDict_Items", "PyDict_Values", "PyNumber_Index", "PyObject_Str", "PyObject_Repr",
               "PyLong_FromUnsignedLong", "PyLong_FromLongLong", "PyLong_FromUnsignedLongLong", "PyLong_FromSsize_t", "PySequence_GetSlice",
               "PyUnicode_DecodeUTF8", "PyObject_Type", "PyCapsule_New", "PyImport_Import", "PyImport_ImportModuleNoBlock", "PyList_GetSlice"}
SINGLETON = ("_Py_NoneStruct", "_Py_TrueStruct", "_Py_FalseStruct")
CONVERTERS = {"PyArray_Converter": True}
UNTRACKED_SLOTS = {45}


def codes(fmt):
    """Codes of a PyArg_Parse format: (code, optional)"""
    out, opt, k = [], False, 0
    while k < len(fmt):
        c = fmt[k]
        k += 1
        if c in ":;":
            break
        if c == "|":
            opt = True
        elif c.isalpha():
            if k < len(fmt) and fmt[k] in "&!#*":
                c += fmt[k]
                k += 1
            out.append((c, opt))
    return out


class Quiet:
    def count(self, *a):
        pass


class Refs(typestate.Explorer):
    """res[handle] = number of references this call owns; handles of objects it was merely shown start at 0"""
    refine_memory = True

    def __init__(self, ctx, src, F, converters, only=None):
        super().__init__(F)
        self.only, self.found, self.converter_slots = only, {}, {166}
        self.ctx, self.src, self.converters = ctx, src, converters
        self.merge = typestate.flows_to_return(F) | typestate.flags(F)
        self.reports = {}

    def report(self, kind, msg):
        self.reports.setdefault(kind, msg)

    def merge_key(self, s, live):
        return (frozenset(s.res.items()), frozenset((id(x), v) for x, v in s.env.items() if v[0] == "r" and x in live),
                frozenset((k, v) for k, v in s.mem.items() if v[0] == "r"))

    def val(self, s, v):
        if isinstance(v, ir.Arg) and v.type.kind == "ptr":
            return self.handle(("arg", v.index))
        if isinstance(v, ir.Global) and v.name in SINGLETON:
            return self.handle(("g", v.name))
        return super().val(s, v)

    def handle(self, w):
        """The objects are followed one at a time"""
        if w == self.only:
            return ("r", w)
        self.found[w] = True
        return ("nz",)

    def icmp(self, s, i):
        if any(isinstance(x, ir.Arg) for x in i.ops):
            return None
        a, b = self.val(s, i.ops[0]), self.val(s, i.ops[1])
        for x, y in ((a, b), (b, a)):
            # an object of this call's own making is not the argument or the singleton it is compared with; a converted one may be
            if x is not None and y is not None and x[0] == y[0] == "r" and x != y:
                return None
        return super().icmp(s, i)

    def assume_value(self, s, x, v):
        if isinstance(x, ir.Arg):
            return True
        return super().assume_value(s, x, v)

    def owned(self, s, i, tag="new"):
        r = self.handle((tag, i))
        if r == ("nz",):
            return r
        if s.res.get(r, (0, False))[0] > 0:
            self.report("lost:%s" % i.where(), "%s: a reference acquired at %s is lost when the same call is made again (path %s)" % (self.F.name, i.where(), s.path()))
        s.res[r] = (1, False)
        self.ctx.count("references_acquired_on_paths")
        return r

    def count(self, s, r):
        return s.res.get(r, (0, False))[0]

    def add(self, s, r, d):
        c, e = s.res.get(r, (0, False))
        s.res[r] = (c + d, e)
        if s.res[r] == (0, False) and r[1][0] in ("arg", "g", "b"):
            del s.res[r]

    def share(self, s, r):
        c, e = s.res.get(r, (0, False))
        s.res[r] = (c, e if e == "kept" else True)

    def describe(self, r):
        k, w = r[1]
        return {"arg": "argument %s" % w, "g": "%s" % w}[k] if k in ("arg", "g") else "object obtained at %s" % w.where() if not k.startswith("cv") else "argument converted into %s" % w

    def call(self, s, i, n):
        if n in INC or n in DEC:
            h = self.val(s, i.ops[0])
            if h is not None and h[0] == "r":
                if n in INC:
                    self.ctx.count("references_taken_on_paths")
                    self.add(s, h, 1)
                    s.env[i] = h
                else:
                    self.ctx.count("references_released_on_paths")
                    if self.count(s, h) <= 0:
                        self.report("over:" + str(i.where()), "%s: on the path %s, a reference to the %s is released that this call does not own (%s)" % (
                            self.F.name, s.path(), self.describe(h), i.where()))
                    else:
                        self.add(s, h, -1)
            return [s]
        if n in STEAL:
            k, only_ok = STEAL[n]
            h = self.val(s, i.ops[k])
            self.clobber(s, i, n)
            out = []
            for ok in (True, False):
                x = s.copy()
                if i.type.kind != "void":
                    x.env[i] = ("c", 0 if ok else -1)
                elif not ok:
                    break
                if h is not None and h[0] == "r" and (ok or not only_ok):
                    if self.count(x, h) <= 0:
                        self.report("steal:" + str(i.where()), "%s: on the path %s, %s takes over a reference to the %s that this call does not own (%s)" % (
                            self.F.name, s.path(), n, self.describe(h), i.where()))
                    else:
                        self.add(x, h, -1)
                        self.share(x, h)
                out.append(x)
            return out
        # an object whose last reference was released must not be used
        for v in i.ops:
            h = self.val(s, v)
            if h is not None and h[0] == "r" and h in s.res and s.res[h] == (0, False) and h[1][0] in ("new", "cv"):
                self.report("use:" + str(i.where()), "%s: on the path %s, the %s is used after its reference was released (%s)" % (
                    self.F.name, s.path(), self.describe(h), i.where()))
        if n in ZERO_FAILS:
            return self.parse(s, i, n)
        if n in self.converters or n is None and numpy_slot(i) in self.converter_slots:
            a, b = s.copy(), s.copy()
            self.clobber(a, i, n)
            k = self.cell(a, i.ops[1])
            r = self.owned(a, i)
            if k is None or k[0] != "a":
                if r[0] == "r":
                    a.res[r] = (0, True)           # handed to the caller
            else:
                a.mem[k] = r
            a.env[i], b.env[i] = ("c", 1), ("c", 0)
            return [a, b]
        if n == "Py_BuildValue" or n == "_Py_BuildValue_SizeT":
            f = strconst(i.ops[0])
            a, b = s.copy(), s.copy()
            a.env[i], b.env[i] = self.owned(a, i), ("c", 0)
            if f and "N" in f:
                cs = codes(f)
                for (c, _), v in zip(cs, i.ops[1:]):
                    h = self.val(s, v)
                    if c == "N" and h is not None and h[0] == "r":
                        for x in (a, b):
                            if self.count(x, h) > 0:
                                self.add(x, h, -1)
                                self.share(x, h)
            return [a, b]
        if n in NEW or n is None and i.type.kind == "ptr" and numpy_slot(i) is not None and numpy_slot(i) not in UNTRACKED_SLOTS:
            a, b = s.copy(), s.copy()
            self.clobber(a, i, n)
            self.clobber(b, i, n)
            if n is not None and n.startswith("PyTuple_Pack"):
                for v in i.ops[1:]:
                    h = self.val(a, v)
                    if h is not None and h[0] == "r" and h in a.res:
                        self.share(a, h)
            a.env[i] = self.owned(a, i)
            b.env[i] = ("c", 0)
            return [a, b]
        if n in BORROWED:
            a, b = s.copy(), s.copy()
            a.env[i], b.env[i] = self.handle(("b", i)), ("c", 0)
            return [a, b]
        if n in KEEP:
            a, b = s.copy(), s.copy()
            for k in KEEP[n]:
                h = self.val(a, i.ops[k])
                if h is not None and h[0] == "r" and h in a.res:
                    self.share(a, h)
            a.env[i], b.env[i] = ("c", 0), ("c", -1)
            return [a, b]
        if n in SET and i.type.kind == "ptr":
            s.env[i] = ("c", 0)
            return [s]
        return None

    def parse(self, s, i, n):
        f = strconst(i.ops[2 if "Keywords" in n else 1])
        self.clobber(s, i, n)
        if f is None:
            a, b = s.copy(), s.copy()
            a.env[i], b.env[i] = ("nz",), ("c", 0)
            return [a, b]
        ops = list(i.ops[4 if "Keywords" in n else 2:])
        targets, k = [], 0
        for c, opt in codes(f):
            if c == "O&":
                targets.append((ops[k].name if isinstance(ops[k], ir.Function) else self.loaded_slot(ops[k]), ops[k + 1], opt))
                k += 2
            elif c in ("O!", "es", "et", "s#", "y#", "z#"):
                if c == "O!":
                    targets.append((None, ops[k + 1], opt))
                k += 2
            else:
                if c in ("O", "U", "S"):
                    targets.append((None, ops[k], opt))
                k += 1
        out = []
        before = s
        for ok, opts in ((True, True), (True, False), (False, True), (False, False)):
            x = before.copy()
            for conv, p, opt in targets:
                c = self.cell(x, p)
                if c is None:
                    continue
                if opt and not opts or not ok and not opts:
                    x.mem[c] = ("c", 0)            # not given: as initialised, which C12's rules see to
                    continue
                if conv is None:
                    x.mem[c] = self.handle(("cvb", c[1].name or str(c[1])))
                elif conv in self.converters:
                    r = self.handle(("cv", "%s:%s" % (i.where(), getattr(c[1], "name", "") or c[2])))
                    x.mem[c] = r
                    if r[0] == "r":
                        x.res[r] = (1, False)
                        self.ctx.count("references_acquired_on_paths")
            x.env[i] = ("c", 1 if ok else 0)
            if not any((y.mem, y.res, y.env) == (x.mem, x.res, x.env) for y in out):
                out.append(x)
        return out

    def loaded_slot(self, v):
        while isinstance(v, ir.Inst) and v.op in ("bitcast",):
            v = v.ops[0]
        if isinstance(v, ir.Inst) and v.op == "load":
            p = v.ops[0]
            if isinstance(p, ir.Inst) and p.op == "gep":
                b, off, var = ir.gep_parts(p)
                if not var and isinstance(b, ir.Inst) and b.op == "load" and isinstance(b.ops[0], ir.Global) and "API" in b.ops[0].name:
                    return "PyArray_Converter" if off // 8 in self.converter_slots else None
        return None

    def on_store(self, s, i, k, v):
        if v is not None and v[0] == "r" and k is not None and k[0] == "g":
            # the module may hold a reference
            c, e = s.res.get(v, (0, False))
            s.res[v] = (c, "kept")
        elif v is not None and v[0] == "r" and (k is None or k[0] != "a"):
            # stored where the caller finds it: the reference goes with it
            c, e = s.res.get(v, (0, False))
            s.res[v] = (c - 1, "given") if e != "given" else (c, e)

    def at_return(self, s, i, v):
        self.ctx.count("returns_examined")
        for r, (c, e) in sorted(s.res.items(), key=repr):
            want = 1 if v == r and self.F.rettype.kind == "ptr" else 0
            if c > want + (e == "kept") and not self.F.name.startswith("PyInit_"):
                self.report("leak:%s" % (r[1],), "%s: on the path %s, a reference to the %s is never released (returns at %s)" % (
                    self.F.name, s.path(), self.describe(r), i.where()))
            elif c < want and e not in (True, "kept"):
                self.report("borrowed:%s" % (r[1],), "%s: on the path %s, the %s is returned without a reference for the caller (%s)" % (
                    self.F.name, s.path(), self.describe(r), i.where()))
        if v is not None and v[0] == "r" and v not in s.res and v[1][0] in ("arg", "g", "b", "cvb") and self.F.rettype.kind == "ptr":
            self.report("borrowed:%s" % (v[1],), "%s: on the path %s, the %s is returned without a reference for the caller (%s)" % (
                self.F.name, s.path(), self.describe(v), i.where()))


def strconst(v):
    if isinstance(v, ir.Const) and v.kind == "expr" and v.ops:
        v = v.ops[0]
    while isinstance(v, ir.Inst) and v.op in ("gep", "bitcast"):
        v = v.ops[0]
    if isinstance(v, ir.Inst) and v.op == "alloca":
        # a local array that starts out as a copy of a constant
        src = [i.ops[1] for i in v.block.fn.insts() if i.op == "call" and (ir.callee_name(i) or "").startswith("llvm.memcpy") and i.ops[0] is v]
        return strconst(src[0]) if len(src) == 1 else None
    if isinstance(v, ir.Global):
        c = getattr(v, "init", None)
        if c is not None and getattr(c, "kind", None) == "str":
            return c.v.rstrip(b"\0").decode("latin-1")
    return None


def c16(ctx):
    ctx.rule("on every path of every function Python calls, each reference that was acquired (a new object, a converted argument, Py_INCREF) is released, "
             "taken over by a container, or returned exactly once; no reference is released or returned that the call does not own")
    for s in ("mrcal-pywrap.c", "python-cameramodel-converter.c"):
        examine(ctx, s)
    ctx.require("functions", 25)
    ctx.require("references_acquired_on_paths", 100)


def examine(ctx, s):
    b = front.compile_bc(s)
    P = ir.Module(b)
    api = set(INC) | set(DEC) | set(STEAL)
    def here(F):
        """Written in this file or in a header next to it, not in those of Python and numpy"""
        f = next((i.file for i in F.insts() if i.file), None)
        return f is not None and "/python" not in f and "/numpy" not in f and not f.startswith("/usr/")
    own = [F.name for F in P.functions.values() if not F.decl and F.linkage in (8, 9) and F.name not in api and here(F)]
    outside = {F.name for F in P.functions.values() if not F.decl and not here(F)}
    force = ["-force-attribute=%s:alwaysinline" % f for f in sorted(own)]
    force += ["-force-remove-attribute=%s:alwaysinline" % F.name for F in P.functions.values() if not F.decl and F.name not in own]
    M = ir.Module(front.opt(b, "forceattrs,always-inline,sroa,mem2reg", tuple(force)))
    taken = set()
    for F in M.functions.values():
        if not F.decl:
            for i in F.insts():
                for k, v in enumerate(i.ops):
                    if isinstance(v, ir.Function) and not (i.op in ("call", "invoke") and v is i.callee):
                        taken.add(v.name)
    called = {ir.callee_name(i) for F in M.functions.values() if not F.decl for i in F.insts() if i.op in ("call", "invoke")}
    # converters: called by PyArg_Parse..., and leave a new reference in *address
    conv = {"PyArray_Converter"}
    for F in P.functions.values():
        if not F.decl:
            for i in F.insts():
                if ir.callee_name(i) in ZERO_FAILS:
                    conv |= {v.name for v in i.ops if isinstance(v, ir.Function) and not v.decl}
    names = []
    for n in sorted(M.functions):
        F = M.functions[n]
        if F.decl or n in api or n in outside or n in called and n not in taken:
            continue
        if F.linkage in (8, 9) and n in called:
            continue
        names.append(n)

    def discover(n, found):
        # an object that is followed can bring others to light: those obtained from it
        e = Refs(Quiet(), s, M.functions[n], conv)
        e.run()
        return sorted(e.found, key=repr)

    def one(c, nw):
        n, only = nw
        e = Refs(c, s, M.functions[n], conv, only)
        e.run()
        c.count("abstract_states", e.n)
        c.count("objects_followed")
        for k, m in sorted(e.reports.items()):
            c.violation("C16:%s:%s:%s" % (s, n, k.split(":")[0]), "%s: %s" % (s, m))
    items = []
    for n in names:
        ctx.count("functions")
        f = discover(n, ())
        items += [(n, w) for w in f]
        ctx.sample("%s: %d objects" % (n, len(f)), 40)
    ctx.parallel(one, items)
