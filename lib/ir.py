"""A read-only Python object model of LLVM IR modules.

Bitcode is read with LLVM's own reader (libLLVM's stable C API, through ctypes)
and turned into plain Python objects: Module, Function, Block, Inst, and operand
values.  Nothing here executes any code of the program under analysis."""
import ctypes as C
import os

_LIBS = ["/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1",
         "/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1",
         "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
         "/usr/lib/llvm-18/lib/libLLVM.so.1",
         "/usr/lib/llvm-18/lib/libLLVM-18.so"]
_L = None


def _lib():
    global _L
    if _L is not None:
        return _L
    for p in _LIBS:
        if os.path.exists(p):
            _L = C.CDLL(p)
            break
    else:
        raise RuntimeError("libLLVM 18 not found")
    L = _L
    P = C.c_void_p

    def f(name, res, *args):
        fn = getattr(L, name)
        fn.restype = res
        fn.argtypes = list(args)
    S = C.c_char_p
    U = C.c_uint
    I = C.c_int
    for n in ("LLVMContextCreate",):
        f(n, P)
    f("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(P), C.POINTER(S))
    f("LLVMParseIRInContext", I, P, P, C.POINTER(P), C.POINTER(S))
    for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstBasicBlock",
              "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction", "LLVMGetNextInstruction",
              "LLVMGetFirstGlobal", "LLVMGetNextGlobal", "LLVMGetInitializer", "LLVMTypeOf",
              "LLVMGetElementType", "LLVMGlobalGetValueType", "LLVMGetCalledValue",
              "LLVMBasicBlockAsValue", "LLVMGetModuleDataLayout", "LLVMGetReturnType",
              "LLVMGetAllocatedType", "LLVMGetGEPSourceElementType", "LLVMGetInstructionParent",
              "LLVMGetFirstGlobalAlias", "LLVMGetNextGlobalAlias", "LLVMAliasGetAliasee",
              "LLVMGetCalledFunctionType", "LLVMValueAsBasicBlock"):
        f(n, P, P)
    for n in ("LLVMGetInstructionOpcode", "LLVMGetNumOperands", "LLVMGetValueKind",
              "LLVMGetICmpPredicate", "LLVMGetFCmpPredicate", "LLVMIsDeclaration",
              "LLVMGetTypeKind", "LLVMGetIntTypeWidth", "LLVMIsGlobalConstant", "LLVMCountParams",
              "LLVMGetLinkage", "LLVMGetConstOpcode", "LLVMGetNumIndices", "LLVMCountStructElementTypes",
              "LLVMGetArrayLength", "LLVMGetVectorSize", "LLVMCountIncoming", "LLVMGetDebugLocLine",
              "LLVMIsConditional", "LLVMIsThreadLocal", "LLVMIsFunctionVarArg", "LLVMIsPackedStruct"):
        f(n, U, P)
    f("LLVMGetValueName2", S, P, C.POINTER(C.c_size_t))
    f("LLVMGetOperand", P, P, U)
    f("LLVMGetParam", P, P, U)
    f("LLVMStructGetTypeAtIndex", P, P, U)
    f("LLVMConstIntGetSExtValue", C.c_longlong, P)
    f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
    f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(I))
    f("LLVMABISizeOfType", C.c_ulonglong, P, P)
    f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
    f("LLVMGetIncomingValue", P, P, U)
    f("LLVMGetIncomingBlock", P, P, U)
    f("LLVMGetIndices", C.POINTER(U), P)
    f("LLVMGetDebugLocFilename", C.POINTER(C.c_char), P, C.POINTER(U))
    f("LLVMGetStructName", S, P)
    f("LLVMIsConstantString", I, P)
    f("LLVMGetAsString", C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
    f("LLVMGetElementAsConstant", P, P, U)
    f("LLVMGetAggregateElement", P, P, U)
    f("LLVMPrintValueToString", C.c_void_p, P)
    f("LLVMDisposeMessage", None, P)
    return L


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr",
       66: "fneg", 8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv",
       15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr",
       23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc",
       31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc",
       38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp",
       43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze",
       55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FPRED = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno",
         9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86fp80", 5: "fp128", 7: "label", 8: "int",
      9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata"}


class Type:
    __slots__ = ("kind", "bits", "size", "name", "elems", "offsets", "elem", "n")

    def __init__(self):
        self.kind = None
        self.bits = self.size = self.n = 0
        self.name = None
        self.elems = None
        self.offsets = None
        self.elem = None

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.bits
        if self.kind == "struct":
            return "struct:%s" % (self.name or "anon%d" % self.size)
        if self.kind in ("array", "vector"):
            return "[%d x %r]" % (self.n, self.elem)
        return self.kind


class Value:
    __slots__ = ("type", "name")


class Const(Value):
    """kind: int, fp, null, undef, zero (aggregate), agg, str, expr, func, global, block, asm, meta"""
    __slots__ = ("kind", "v", "op", "ops", "srctype")

    def __init__(self, kind, type_, v=None):
        self.kind, self.type, self.v = kind, type_, v
        self.op = None
        self.ops = None
        self.srctype = None
        self.name = None

    def __repr__(self):
        if self.kind == "expr":
            return "expr(%s %r)" % (self.op, self.ops)
        return "%s:%s" % (self.kind, getattr(self.v, "name", self.v))


class Arg(Value):
    __slots__ = ("index", "fn")

    def __repr__(self):
        return "%" + (self.name or str(self.index))


class Global(Value):
    __slots__ = ("init", "const", "linkage", "decl", "tls", "valtype")

    def __repr__(self):
        return "@" + self.name


class Inst(Value):
    __slots__ = ("op", "ops", "block", "pred", "callee", "line", "file", "incoming", "alloctype",
                 "srctype", "indices", "id", "targets", "cases", "fnvarargs")

    def __repr__(self):
        return "%%%s" % (self.name or "t%d" % self.id)

    def where(self):
        return "%s:%s" % (os.path.basename(self.file or "?"), self.line)


class Block:
    __slots__ = ("name", "insts", "fn", "idx", "preds")

    @property
    def term(self):
        return self.insts[-1]

    @property
    def succs(self):
        return self.insts[-1].targets

    def __repr__(self):
        return "bb%d" % self.idx


class Function(Value):
    __slots__ = ("args", "blocks", "decl", "linkage", "rettype", "module", "varargs")

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def __repr__(self):
        return "@" + self.name


class Module:
    def __init__(self, path):
        L = _lib()
        self.L = L
        self.path = path
        ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read %s: %s" % (path, msg.value))
        mod = C.c_void_p()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError("cannot parse %s: %s" % (path, msg.value))
        self.ptr = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self._types = {}
        self._vals = {}
        self.functions = {}
        self.globals = {}
        self.aliases = {}
        self._load()

    # --- types
    def ty(self, p):
        t = self._types.get(p)
        if t is not None:
            return t
        L = self.L
        t = Type()
        self._types[p] = t
        k = TK.get(L.LLVMGetTypeKind(p), "other")
        t.kind = k
        if k == "int":
            t.bits = L.LLVMGetIntTypeWidth(p)
            t.size = (t.bits + 7) // 8
            if t.bits > 1:
                t.size = L.LLVMABISizeOfType(self.dl, p)
        elif k in ("float", "double", "ptr", "x86fp80", "half"):
            t.size = L.LLVMABISizeOfType(self.dl, p)
        elif k == "struct":
            n = L.LLVMGetStructName(p)
            t.name = n.decode() if n else None
            cnt = L.LLVMCountStructElementTypes(p)
            try:
                t.elems = [self.ty(L.LLVMStructGetTypeAtIndex(p, i)) for i in range(cnt)]
            except Exception:
                t.elems = []
            if cnt:
                t.size = L.LLVMABISizeOfType(self.dl, p)
                t.offsets = [L.LLVMOffsetOfElement(self.dl, p, i) for i in range(cnt)]
            else:
                t.size, t.offsets = 0, []
        elif k == "array":
            t.elem = self.ty(L.LLVMGetElementType(p))
            t.n = L.LLVMGetArrayLength(p)
            t.size = t.n * t.elem.size
        elif k == "vector":
            t.elem = self.ty(L.LLVMGetElementType(p))
            t.n = L.LLVMGetVectorSize(p)
            t.size = t.n * t.elem.size
        return t

    def _nm(self, p):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(p, C.byref(n))
        return s[:n.value].decode() if s else ""

    # --- values
    def val(self, p):
        v = self._vals.get(p)
        if v is not None:
            return v
        L = self.L
        k = L.LLVMGetValueKind(p)
        if k in (5, 8, 0, 24):
            raise RuntimeError("unregistered value %s" % self._nm(p))
        if k == 1:
            return None
        t = self.ty(L.LLVMTypeOf(p))
        if k == 18:
            c = Const("int", t, L.LLVMConstIntGetSExtValue(p) if t.bits <= 64 else None)
            if t.bits == 1:
                c.v = 1 if L.LLVMConstIntGetZExtValue(p) else 0
        elif k == 19:
            lose = C.c_int()
            c = Const("fp", t, L.LLVMConstRealGetDouble(p, C.byref(lose)))
        elif k == 20:
            c = Const("null", t, 0)
        elif k in (14, 25):
            c = Const("undef", t)
        elif k == 15:
            c = Const("zero", t)
        elif k in (11, 12, 13):
            c = Const("agg", t)
            self._vals[p] = c
            c.v = [self.val(L.LLVMGetOperand(p, i)) for i in range(L.LLVMGetNumOperands(p))]
        elif k in (16, 17):
            c = Const("agg", t)
            if L.LLVMIsConstantString(p):
                n = C.c_size_t()
                s = L.LLVMGetAsString(p, C.byref(n))
                c = Const("str", t, bytes(s[:n.value]))
            else:
                c.v = [self.val(L.LLVMGetElementAsConstant(p, i)) for i in range(t.n)]
        elif k == 10:
            c = Const("expr", t)
            self._vals[p] = c
            c.op = OPC.get(L.LLVMGetConstOpcode(p), "?")
            c.ops = [self.val(L.LLVMGetOperand(p, i)) for i in range(L.LLVMGetNumOperands(p))]
            if c.op == "gep":
                c.srctype = self.ty(L.LLVMGetGEPSourceElementType(p))
        elif k == 6:
            c = Const("alias", t, self._nm(p))
        elif k == 23:
            c = Const("asm", t)
        else:
            c = Const("meta", t)
        self._vals[p] = c
        return c

    def _load(self):
        L = self.L
        g = L.LLVMGetFirstGlobal(self.ptr)
        gl = []
        while g:
            G = Global()
            G.name = self._nm(g)
            G.type = self.ty(L.LLVMTypeOf(g))
            G.valtype = self.ty(L.LLVMGlobalGetValueType(g))
            G.const = bool(L.LLVMIsGlobalConstant(g))
            G.linkage = L.LLVMGetLinkage(g)
            G.decl = bool(L.LLVMIsDeclaration(g))
            G.tls = bool(L.LLVMIsThreadLocal(g))
            G.init = None
            self._vals[g] = G
            self.globals[G.name] = G
            gl.append((g, G))
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(self.ptr)
        fl = []
        while f:
            F = Function()
            F.name = self._nm(f)
            F.type = self.ty(L.LLVMTypeOf(f))
            F.linkage = L.LLVMGetLinkage(f)
            F.decl = bool(L.LLVMIsDeclaration(f))
            F.module = self
            F.blocks = []
            ft = L.LLVMGlobalGetValueType(f)
            F.rettype = self.ty(L.LLVMGetReturnType(ft))
            F.varargs = bool(L.LLVMIsFunctionVarArg(ft))
            F.args = []
            for i in range(L.LLVMCountParams(f)):
                p = L.LLVMGetParam(f, i)
                A = Arg()
                A.name = self._nm(p)
                A.index = i
                A.fn = F
                A.type = self.ty(L.LLVMTypeOf(p))
                self._vals[p] = A
                F.args.append(A)
            self._vals[f] = F
            self.functions[F.name] = F
            fl.append((f, F))
            f = L.LLVMGetNextFunction(f)
        for g, G in gl:
            if not G.decl:
                ini = L.LLVMGetInitializer(g)
                if ini:
                    G.init = self.val(ini)
        for f, F in fl:
            if not F.decl:
                self._load_fn(f, F)

    def _load_fn(self, f, F):
        L = self.L
        b = L.LLVMGetFirstBasicBlock(f)
        bl = []
        bmap = {}
        while b:
            B = Block()
            B.fn = F
            B.idx = len(bl)
            B.insts = []
            B.preds = []
            bv = L.LLVMBasicBlockAsValue(b)
            B.name = self._nm(bv)
            bmap[bv] = B
            bmap[b] = B
            bl.append((b, B))
            F.blocks.append(B)
            b = L.LLVMGetNextBasicBlock(b)
        cnt = 0
        todo = []
        for b, B in bl:
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Inst()
                I.id = cnt
                cnt += 1
                I.op = OPC.get(L.LLVMGetInstructionOpcode(i), "op%d" % L.LLVMGetInstructionOpcode(i))
                I.block = B
                I.name = self._nm(i)
                I.type = self.ty(L.LLVMTypeOf(i))
                I.pred = I.callee = I.incoming = I.alloctype = I.srctype = I.indices = I.cases = None
                I.targets = ()
                I.fnvarargs = False
                I.line = L.LLVMGetDebugLocLine(i)
                n = C.c_uint()
                s = L.LLVMGetDebugLocFilename(i, C.byref(n))
                I.file = bytes(s[:n.value]).decode() if s and n.value else None
                self._vals[i] = I
                B.insts.append(I)
                todo.append((i, I))
                i = L.LLVMGetNextInstruction(i)
        for i, I in todo:
            op = I.op
            n = L.LLVMGetNumOperands(i)
            if op == "phi":
                I.incoming = []
                for k in range(L.LLVMCountIncoming(i)):
                    I.incoming.append((self.val(L.LLVMGetIncomingValue(i, k)),
                                       bmap[L.LLVMGetIncomingBlock(i, k)]))
                I.ops = [v for v, _ in I.incoming]
                continue
            raw = [L.LLVMGetOperand(i, k) for k in range(n)]
            if op == "br":
                if L.LLVMIsConditional(i):
                    I.ops = [self.val(raw[0])]
                    # operands: cond, false, true
                    I.targets = (bmap[raw[2]], bmap[raw[1]])
                else:
                    I.ops = []
                    I.targets = (bmap[raw[0]],)
                continue
            if op == "switch":
                I.ops = [self.val(raw[0])]
                I.targets = [bmap[raw[1]]]
                I.cases = []
                for k in range(2, n, 2):
                    I.cases.append((self.val(raw[k]), bmap[raw[k + 1]]))
                    I.targets.append(bmap[raw[k + 1]])
                continue
            if op == "invoke":
                cv = L.LLVMGetCalledValue(i)
                I.callee = self.val(cv)
                I.ops = [self.val(r) for r in raw[:-3]]
                I.targets = (bmap[raw[-3]], bmap[raw[-2]])
                continue
            if op == "call":
                I.callee = self.val(raw[-1])
                I.ops = [self.val(r) for r in raw[:-1]]
                I.fnvarargs = bool(L.LLVMIsFunctionVarArg(L.LLVMGetCalledFunctionType(i)))
                continue
            I.ops = [self.val(r) for r in raw]
            if op == "icmp":
                I.pred = IPRED[L.LLVMGetICmpPredicate(i)]
            elif op == "fcmp":
                I.pred = FPRED[L.LLVMGetFCmpPredicate(i)]
            elif op == "alloca":
                I.alloctype = self.ty(L.LLVMGetAllocatedType(i))
            elif op == "gep":
                I.srctype = self.ty(L.LLVMGetGEPSourceElementType(i))
            elif op in ("extractvalue", "insertvalue"):
                k = L.LLVMGetNumIndices(i)
                idx = L.LLVMGetIndices(i)
                I.indices = [idx[j] for j in range(k)]
        for _, B in bl:
            for s in B.succs:
                s.preds.append(B)


def callee_name(I):
    c = I.callee
    if isinstance(c, Function):
        return c.name
    if isinstance(c, Const) and c.kind == "expr":
        for o in c.ops:
            if isinstance(o, Function):
                return o.name
    if isinstance(c, Const) and c.kind == "alias":
        return c.v
    return None


def gep_parts(I):
    """(base, const_byte_offset, [(byte_scale, value)])"""
    base = I.ops[0]
    t = I.srctype
    off = 0
    var = []

    def add(scale, v):
        nonlocal off
        if isinstance(v, Const) and v.kind == "int":
            off += scale * v.v
        else:
            var.append((scale, v))
    add(t.size, I.ops[1])
    for v in I.ops[2:]:
        if t.kind == "struct":
            off += t.offsets[v.v]
            t = t.elems[v.v]
        else:
            t = t.elem
            add(t.size, v)
    return base, off, var
