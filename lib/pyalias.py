"""Which objects may a Python function change, keep or hand out?  A flow-sensitive may-alias analysis of the package's syntax
trees.  A value is (S, C): S the roots it may be, or be a view of; C the roots reachable inside it.  Roots: 'p:x' the object
given as argument x, 'p:x.' something inside it, 'd:x' the default value of x, 'g:mod.name' a module-level object,
'm:mod' an imported module.  Calls of the package's own functions are analysed in the context of their arguments."""
import ast
import os

NONE, SOME, ANY = "none", "some", "any"


class V:
    __slots__ = ("S", "C", "n", "k")

    def __init__(self, S=frozenset(), C=frozenset(), n=ANY, k=None):
        self.S, self.C, self.n, self.k = frozenset(S), frozenset(C), n, k      # k: ('fn', Func) / ('mod', name) / ('const', c)

    def __or__(self, o):
        k = self.k if self._k(o) else None
        if k is None and self.k and o.k and self.k[0] == o.k[0] == "tuple" and len(self.k[1]) == len(o.k[1]):
            k = ("tuple", tuple(a | b for a, b in zip(self.k[1], o.k[1])))
        return V(self.S | o.S, self.C | o.C, self.n if self.n == o.n else ANY, k)

    def _k(self, o):
        return self.key()[3] == o.key()[3]

    def key(self):
        k = self.k
        if k and k[0] == "tuple":
            k = ("tuple",) + tuple(v.key() for v in k[1])
        elif k and k[0] == "fn":
            k = ("fn", id(k[1]))
        elif k and k[0] == "const":
            k = repr(k)
        return (self.S, self.C, self.n, k)

    def __eq__(self, o):
        return self.key() == o.key()

    def all(self):
        return self.S | self.C


FRESH = V(n=SOME)
UNK = V()


def inner(v):
    """An element, attribute or view of v's content"""
    return V(v.C, v.C)


ALIAS = {"np.asarray", "np.asanyarray", "np.ascontiguousarray", "np.atleast_1d", "np.atleast_2d", "np.atleast_3d", "np.squeeze", "np.moveaxis",
         "np.swapaxes", "np.broadcast_to", "np.expand_dims", "np.reshape", "np.ravel", "np.rollaxis", "np.diagonal", "np.real", "np.transpose",
         "nps.clump", "nps.dummy", "nps.mv", "nps.xchg", "nps.transpose", "nps.reorder", "nps.atleast_dims", "np.flip", "np.flipud", "np.fliplr",
         "np.asfarray", "np.require", "memoryview"}
SPLIT = {"np.split", "np.array_split", "np.broadcast_arrays", "np.vsplit", "np.hsplit", "iter", "enumerate", "zip", "reversed", "list", "tuple",
         "sorted", "map", "filter", "dict", "set", "copy.copy", "itertools.chain", "chain"}
ALIASM = {"reshape", "ravel", "view", "transpose", "swapaxes", "squeeze", "diagonal", "__iter__"}
INNERM = {"get", "values", "items", "keys", "setdefault", "pop", "popitem", "__getitem__"}
MUTM = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "sort", "reverse", "add", "discard", "fill",
        "resize", "put", "itemset", "setflags", "setfield", "partition", "appendleft", "popleft", "write_through", "move_to_end", "__setitem__"}
MUTF = {"np.copyto", "np.put", "np.place", "np.fill_diagonal", "np.random.shuffle", "random.shuffle", "np.add.at", "np.subtract.at", "np.maximum.at",
        "np.putmask", "heapq.heappush", "heapq.heappop", "heappush", "heappop", "heapq.heapify", "setattr", "delattr", "next",
        "cv2.rectangle", "cv2.line", "cv2.polylines", "cv2.circle", "cv2.putText", "cv2.fillPoly",
        "mrcal.pack_state", "mrcal.unpack_state", "_mrcal.pack_state"}
SCALAR = {"int", "float", "str", "bool", "len", "id", "repr", "abs", "min", "max", "sum", "round", "isinstance", "hasattr", "any", "all", "range",
          "type", "hash", "ord", "chr", "format", "callable", "bytes"}


class Func:
    def __init__(self, mod, node, cls=None, closure=None):
        self.mod, self.node, self.cls, self.closure = mod, node, cls, closure
        self.name = getattr(node, "name", "lambda")
        a = node.args
        self.pos = [p.arg for p in a.posonlyargs + a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg and a.vararg.arg
        self.kwarg = a.kwarg and a.kwarg.arg
        self.defaults = dict(zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})

    def params(self):
        return self.pos + self.kwonly + [x for x in (self.vararg, self.kwarg) if x]

    def qual(self):
        return (self.cls + "." if self.cls else "") + self.name


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path).read())
        self.defs, self.classes, self.vars, self.imports, self.stars = {}, {}, set(), {}, []
        for n in self._top(self.tree.body):
            if isinstance(n, ast.FunctionDef):
                self.defs[n.name] = Func(self, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = {m.name: Func(self, m, n.name) for m in n.body if isinstance(m, ast.FunctionDef)}
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[(a.asname or a.name).split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == "*":
                        self.stars.append((n.module or "").split(".")[-1])
                    else:
                        self.imports[a.asname or a.name] = ((n.module or "") + "." if n.module else "") + a.name
            else:
                for m in ast.walk(n):
                    if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                        self.vars.add(m.id)

    def _top(self, body):
        for n in body:
            if isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ("body", "orelse", "finalbody"):
                    yield from self._top(getattr(n, f, []))
                for h in getattr(n, "handlers", []):
                    yield from self._top(h.body)
                if isinstance(n, ast.For):
                    yield ast.Assign(targets=[n.target], value=n.iter)
            else:
                yield n


class Package:
    def __init__(self, root):
        self.mods = {}
        for f in sorted(os.listdir(root)):
            if f.endswith(".py"):
                self.mods[f[:-3]] = Module(f[:-3], os.path.join(root, f))
        self.memo, self.active = {}, []
        self.methods = {}
        for m in self.mods.values():
            for c, ms in m.classes.items():
                for n, f in ms.items():
                    self.methods.setdefault(n, []).append(f)
        self.steps = 0
        self.fields, self.classvars = {}, {}
        for m in self.mods.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    self.classvars[n.name] = {t.id for a in n.body if isinstance(a, ast.Assign) and not isinstance(a.value, ast.Constant)
                                              for t in a.targets if isinstance(t, ast.Name)}
                    for a in ast.walk(n):
                        if isinstance(a, ast.Assign):
                            for t in a.targets:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                    self.fields.setdefault(t.attr, []).append(a.value)

    def immutable(self, field, idx=None):
        """A field (or its idx-th element) that is somewhere set to a number or a string by conversion: scalars are not shared"""
        for v in self.fields.get(field, []):
            if idx is not None:
                if not (isinstance(v, ast.Tuple) and idx < len(v.elts)):
                    continue
                v = v.elts[idx]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("int", "float", "str", "bool") or isinstance(
                    v, ast.JoinedStr) or isinstance(v, ast.Constant) and v.value is not None:
                return True
        return False

    def lookup(self, mod, name):
        """A package-level name as seen from a module"""
        m = self.mods.get(mod)
        if m is None:
            return None
        if name in m.defs:
            return ("fn", m.defs[name])
        if name in m.classes:
            return ("cls", m.name, name)
        for s in m.stars:
            r = self.lookup(s, name)
            if r:
                return r
        if name in m.imports:
            b = m.imports[name].lstrip(".").split(".")
            if b[-1] in self.mods and len(b) <= 2:
                return ("pkgmod", b[-1])
            if len(b) == 2 and b[0] in self.mods:
                return self.lookup(b[0], b[1])
            if b == ["mrcal"]:
                return ("pkgmod", "__init__")
        return None

    def functions(self):
        for m in self.mods.values():
            for f in m.defs.values():
                yield f
            for c in m.classes.values():
                yield from c.values()

    def entry(self, F):
        """Effects of F for unknown arguments"""
        args = {}
        for p in F.params():
            v = V({"p:" + p}, {"p:" + p + "."})
            if p in (F.vararg, F.kwarg):
                v = V(frozenset(), {"p:" + p})          # the tuple / dictionary itself belongs to the function
            d = F.defaults.get(p)
            if d is not None and not (isinstance(d, ast.Constant) or isinstance(d, ast.UnaryOp)):
                v = v | V({"d:" + p}, {"d:" + p})
            args[p] = v
        return self.call(F, args)

    def call(self, F, args):
        key = (id(F.node), tuple((p, args[p].key()) for p in sorted(args)))
        if key in self.memo:
            return self.memo[key]
        if id(F.node) in self.active or len(self.active) > 8:
            return Effects()
        self.active.append(id(F.node))
        try:
            a = Analysis(self, F, args)
            a.run()
        finally:
            self.active.pop()
        self.memo[key] = a.eff
        return a.eff


class Effects:
    def __init__(self):
        self.mut = {}          # root -> (file, line, text)
        self.ret = V(n=ANY)
        self.returned = False
        self.captured = {}     # (container root, stored root) -> site


class Analysis:
    def __init__(self, pkg, F, args):
        self.pkg, self.F, self.mod = pkg, F, F.mod
        self.args = args
        self.eff = Effects()
        self.nested = {}

    # ---- effects
    def mutate(self, v, n, how, deep=False):
        for r in (v.all() if deep else v.S):
            self.eff.mut.setdefault(r, (self.mod.name + ".py", getattr(n, "lineno", 0), how))

    def capture(self, cont, v, n, field=""):
        for c in cont.S:
            for r in v.all():
                if c.rstrip(".") != r.rstrip("."):
                    self.eff.captured.setdefault((c, r, field), (self.mod.name + ".py", n.lineno, ast.unparse(n)[:80]))

    # ---- statements
    def run(self):
        env = dict(self.args)
        self.globals = {x for n in ast.walk(self.F.node) if isinstance(n, ast.Global) for x in n.names}
        if isinstance(self.F.node, ast.Lambda):
            self.ret(self.expr(self.F.node.body, env))
            return
        out = self.block(self.F.node.body, env)
        # local functions that were never called directly: callbacks
        for f, e in list(self.nested.values()):
            if not f.called:
                f.called = True
                a = {p: UNK for p in f.params()}
                self.apply(f, a, f.node)

    def ret(self, v):
        self.eff.ret = v if not self.eff.returned else self.eff.ret | v
        self.eff.returned = True

    def scalar(self, x, v):
        """An argument whose default is a number or a string"""
        d = self.F.defaults.get(x)
        if isinstance(d, ast.UnaryOp):
            d = d.operand
        return isinstance(d, ast.Constant) and d.value is not None

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = dict(a)
        for k, v in b.items():
            r[k] = r[k] | v if k in r else v
        return r

    def block(self, body, env):
        for s in body:
            if env is None:
                break
            env = self.stmt(s, env)
        return env

    def refine(self, t, env, truth):
        """env under the assumption that test t is `truth`; None if impossible"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, env, not truth)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == truth
            if conj:
                for v in t.values:
                    env = self.refine(v, env, truth)
                    if env is None:
                        return None
                return env
            r = None
            for v in t.values:
                e = self.refine(v, env, truth)
                r = self.join(r, e)
            return r
        if isinstance(t, ast.Constant):
            return env if bool(t.value) == truth else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and isinstance(
                t.comparators[0], ast.Constant) and t.comparators[0].value is None and isinstance(t.left, ast.Name):
            want = NONE if isinstance(t.ops[0], ast.Is) == truth else SOME
            v = env.get(t.left.id)
            if v is None:
                return env
            if v.n != ANY and v.n != want:
                return None
            env = dict(env)
            env[t.left.id] = V(n=NONE) if want == NONE else V(v.S, v.C, SOME, v.k)
            return env
        if isinstance(t, ast.Name) and t.id in env:
            v = env[t.id]
            if v.n == NONE:
                return None if truth else env
            if v.k and v.k[0] == "const":
                return env if bool(v.k[1]) == truth else None
            if truth:
                env = dict(env)
                env[t.id] = V(v.S, v.C, SOME, v.k)
        return env

    def stmt(self, s, env):
        self.pkg.steps += 1
        T = type(s)
        if T is ast.Expr:
            self.expr(s.value, env)
        elif T is ast.Assign:
            v = self.expr(s.value, env)
            env = dict(env)
            for t in s.targets:
                self.assign(t, v, env, s)
        elif T is ast.AnnAssign:
            if s.value is not None:
                env = dict(env)
                self.assign(s.target, self.expr(s.value, env), env, s)
        elif T is ast.AugAssign:
            r = self.expr(s.value, env)
            env = dict(env)
            if isinstance(s.target, ast.Name):
                v = self.name(s.target.id, env)
                if not (v.k and v.k[0] == "const") and not self.scalar(s.target.id, v):
                    self.mutate(v, s, "in place: " + ast.unparse(s)[:80])
                if s.target.id in self.globals:
                    self.eff.mut.setdefault("g:%s.%s" % (self.mod.name, s.target.id), (self.mod.name + ".py", s.lineno, ast.unparse(s)[:80]))
                env[s.target.id] = V(v.S, v.C | r.all() if isinstance(s.op, ast.Add) else v.C)
            else:
                self.assign(s.target, r, env, s)
        elif T is ast.Return:
            self.ret(self.expr(s.value, env) if s.value is not None else V(n=NONE))
            return None
        elif T is ast.Raise:
            if s.exc is not None:
                self.expr(s.exc, env)
            return None
        elif T is ast.If:
            self.expr(s.test, env)
            a, b = self.refine(s.test, env, True), self.refine(s.test, env, False)
            a = self.block(s.body, a) if a is not None else None
            b = self.block(s.orelse, b) if b is not None else None
            return self.join(a, b)
        elif T in (ast.For, ast.While, ast.AsyncFor):
            self.brk = getattr(self, "brk", [])
            self.brk.append([])
            cur = env
            for _ in range(4):
                e = dict(cur)
                if T is ast.While:
                    self.expr(s.test, e)
                    e = self.refine(s.test, e, True)
                else:
                    it = self.expr(s.iter, e)
                    self.assign(s.target, inner(it), e, s, loop=True)
                if e is None:
                    break
                e = self.block(s.body, e)
                new = self.join(cur, e)
                for b in self.brk[-1]:
                    new = self.join(new, b)
                if new == cur:
                    break
                cur = new
            self.brk.pop()
            return self.block(s.orelse, cur) if s.orelse else cur
        elif T in (ast.Break, ast.Continue):
            if getattr(self, "brk", None):
                self.brk[-1].append(env)
            return None
        elif T is ast.With:
            env = dict(env)
            for i in s.items:
                v = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, s)
            return self.block(s.body, env)
        elif T is ast.Try:
            e = env
            for x in s.body:
                if e is None:
                    break
                e2 = self.stmt(x, e)
                env = self.join(env, e2)
                e = e2
            out = self.block(s.orelse, e) if e is not None and s.orelse else e
            for h in s.handlers:
                e = dict(env)
                if h.name:
                    e[h.name] = FRESH
                out = self.join(out, self.block(h.body, e))
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None else env) if out is not None else (self.block(s.finalbody, env), None)[1]
            return out
        elif T is ast.FunctionDef:
            f = Func(self.mod, s, self.F.cls, env)
            f.called = False
            self.nested[s.name] = (f, env)
            env = dict(env)
            env[s.name] = V(k=("fn", f))
            f.closure = env
            for d in s.decorator_list:
                self.expr(d, env)
        elif T is ast.Delete:
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.expr(t.value, env), s, ast.unparse(s)[:80])
                elif isinstance(t, ast.Attribute):
                    self.mutate(self.expr(t.value, env), s, ast.unparse(s)[:80])
        elif T in (ast.Import, ast.ImportFrom):
            env = dict(env)
            for a in s.names:
                nm = (a.asname or a.name).split(".")[0]
                r = None
                if a.name.split(".")[0] == "mrcal" and T is ast.Import:
                    r = ("pkgmod", "__init__")
                elif a.name.split(".")[-1] in self.pkg.mods:
                    r = ("pkgmod", a.name.split(".")[-1])
                env[nm] = V(k=r or ("mod", a.name if T is ast.Import and a.asname else nm), S={"m:" + nm})
        elif T is ast.Assert:
            self.expr(s.test, env)
        return env

    def assign(self, t, v, env, n, loop=False):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.eff.mut.setdefault("g:%s.%s" % (self.mod.name, t.id), (self.mod.name + ".py", n.lineno, ast.unparse(n)[:80]))
            env[t.id] = v
            for x in [x for x in env if x.startswith(t.id + "[")]:
                del env[x]
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = v.k[1] if v.k and v.k[0] == "tuple" and len(v.k[1]) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts) else None
            for i, x in enumerate(t.elts):
                self.assign(x, parts[i] if parts else inner(v), env, n)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, V(frozenset(), v.C), env, n)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            base = self.expr(t.value, env)
            if isinstance(t, ast.Subscript):
                self.expr(t.slice, env)
            how = (ast.unparse(t) + " = ...")[:80] if not loop else ast.unparse(t)
            self.mutate(base, n, how)
            if isinstance(t, ast.Attribute) and not self.pkg.immutable(t.attr):
                parts = v.k[1] if v.k and v.k[0] == "tuple" else [v]
                for i, x in enumerate(parts):
                    if len(parts) == 1 or not self.pkg.immutable(t.attr, i):
                        self.capture(base, x, n, t.attr)
            # the variable's content now includes the value
            r = t.value
            while isinstance(r, (ast.Subscript, ast.Attribute)):
                r = r.value
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                env["%s[%r]" % (t.value.id, t.slice.value)] = v
            if isinstance(r, ast.Name) and r.id in env and not (isinstance(t, ast.Subscript) and isinstance(t.slice, (ast.Slice, ast.Tuple))):
                b = env[r.id]
                env[r.id] = V(b.S, b.C | v.all(), b.n, b.k)

    # ---- expressions
    def name(self, x, env):
        if x in env and x not in self.globals:
            return env[x]
        c = self.F.closure
        if c is not None and x in c:
            return c[x]
        m = self.mod
        r = self.pkg.lookup(m.name, x)
        if r:
            return V(k=r, S={"g:%s.%s" % (m.name, x)})
        if x in m.vars:
            g = "g:%s.%s" % (m.name, x)
            return V({g}, {g})
        if x in m.imports:
            return V({"m:" + x}, frozenset(), k=("mod", m.imports[x].lstrip(".")))
        return UNK

    def expr(self, e, env):
        T = type(e)
        if T is ast.Name:
            return self.name(e.id, env)
        if T is ast.Constant:
            return V(n=NONE) if e.value is None else V(n=SOME, k=("const", e.value))
        if T is ast.Attribute:
            b = self.expr(e.value, env)
            if b.k and b.k[0] == "pkgmod":
                r = self.pkg.lookup(b.k[1], e.attr)
                if r:
                    return V({"g:" + e.attr}, k=r)
                m = self.pkg.mods.get(b.k[1])
                if m and e.attr in m.vars:
                    g = "g:%s.%s" % (b.k[1], e.attr)
                    return V({g}, {g})
                return V({"m:mrcal." + e.attr}, k=("mod", "mrcal." + e.attr))
            if b.k and b.k[0] == "mod":
                return V({"m:%s.%s" % (b.k[1], e.attr)}, {"m:%s.%s" % (b.k[1], e.attr)}, k=("mod", b.k[1] + "." + e.attr))
            if e.attr in ("T", "real", "imag", "flat", "base"):
                return V(b.S, b.C)
            if e.attr in ("shape", "ndim", "size", "dtype", "strides", "__name__"):
                return FRESH
            if self.F.cls and self.pkg.immutable(e.attr):
                return UNK
            if self.F.cls and e.attr in self.pkg.classvars.get(self.F.cls, ()) and e.attr not in self.pkg.fields:
                g = "g:%s.%s" % (self.F.cls, e.attr)
                return V({g}, {g})
            if e.attr == "__class__":
                return V({"g:" + (self.F.cls or "class")}, {"g:" + (self.F.cls or "class")})
            r = inner(b)
            n = {len(x.elts) for x in self.pkg.fields.get(e.attr, []) if isinstance(x, ast.Tuple)} if self.F.cls else ()
            if len(n) == 1:
                r.k = ("tuple", tuple(UNK if self.pkg.immutable(e.attr, i) else V(r.S, r.C) for i in range(*n)))
            return r
        if T is ast.Subscript:
            if isinstance(e.value, ast.Name) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                x = env.get("%s[%r]" % (e.value.id, e.slice.value))
                if x is not None:
                    return x
            if self.F.cls and isinstance(e.value, ast.Attribute) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                    self.pkg.immutable(e.value.attr, e.slice.value):
                return UNK
            b = self.expr(e.value, env)
            i = self.expr(e.slice, env)
            if b.k and b.k[0] == "tuple" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                    -len(b.k[1]) <= e.slice.value < len(b.k[1]):
                return b.k[1][e.slice.value]
            if self.fancy(e.slice, env):
                return V(frozenset(), frozenset())
            # a slice of an array is a view of it; an element of a container is something inside it
            return V(b.S | b.C, b.C) if isinstance(e.slice, (ast.Slice, ast.Tuple)) else V(b.C, b.C) if b.C else V(b.S, b.C)
        if T is ast.Slice:
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.expr(x, env)
            return FRESH
        if T in (ast.Tuple, ast.List, ast.Set):
            vs = [self.expr(x.value if isinstance(x, ast.Starred) else x, env) for x in e.elts]
            C = frozenset().union(*[v.C if isinstance(x, ast.Starred) else v.all() for v, x in zip(vs, e.elts)]) if vs else frozenset()
            k = ("tuple", tuple(vs)) if T is ast.Tuple and not any(isinstance(x, ast.Starred) for x in e.elts) else None
            r = V(frozenset(), C, SOME)
            if k:
                r.k = k
            return r
        if T is ast.Dict:
            C = frozenset()
            for k, v in zip(e.keys, e.values):
                x = self.expr(v, env)
                C |= x.C if k is None else x.all()
                if k is not None:
                    self.expr(k, env)
            return V(frozenset(), C, SOME)
        if T is ast.IfExp:
            self.expr(e.test, env)
            a, b = self.refine(e.test, env, True), self.refine(e.test, env, False)
            r = None
            for x, en in ((e.body, a), (e.orelse, b)):
                if en is not None:
                    v = self.expr(x, en)
                    r = v if r is None else r | v
            return r or UNK
        if T is ast.BoolOp:
            r = None
            for x in e.values:
                v = self.expr(x, env)
                r = v if r is None else r | v
            return r
        if T is ast.NamedExpr:
            v = self.expr(e.value, env)
            env[e.target.id] = v
            return v
        if T in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            en = dict(env)
            for g in e.generators:
                self.assign(g.target, inner(self.expr(g.iter, en)), en, e)
                for c in g.ifs:
                    self.expr(c, en)
            if T is ast.DictComp:
                self.expr(e.key, en)
                v = self.expr(e.value, en)
            else:
                v = self.expr(e.elt, en)
            return V(frozenset(), v.all(), SOME)
        if T is ast.Lambda:
            f = Func(self.mod, e, self.F.cls, env)
            f.called = True
            a = {p: UNK for p in f.params()}
            self.apply(f, a, e)
            return V(k=("fn", f))
        if T is ast.Call:
            return self.callx(e, env)
        if T is ast.Starred:
            return self.expr(e.value, env)
        if T is ast.BinOp:
            a, b = self.expr(e.left, env), self.expr(e.right, env)
            # containers: list + list keeps the elements
            if a.k and a.k[0] == "arr" or b.k and b.k[0] == "arr":
                return V(n=SOME, k=("arr",))
            return V(frozenset(), (a.C | b.C) if isinstance(e.left, (ast.List, ast.Tuple)) or isinstance(e.right, (ast.List, ast.Tuple)) else frozenset(), SOME)
        if T in (ast.Yield, ast.YieldFrom, ast.Await):
            if e.value is not None:
                v = self.expr(e.value, env)
                self.ret(V(frozenset(), v.all()))
            return UNK
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, env)
        if T is ast.Compare or T is ast.UnaryOp and isinstance(e.op, ast.Invert):
            return V(n=SOME, k=("arr",))
        return FRESH

    def fancy(self, s, env):
        """An index that copies: a comparison, a mask, an index array"""
        for x in s.elts if isinstance(s, ast.Tuple) else [s]:
            if isinstance(x, (ast.Compare, ast.List, ast.ListComp)) or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Invert) or \
                    isinstance(x, ast.BinOp) and isinstance(x.op, (ast.BitAnd, ast.BitOr)):
                return True
            if isinstance(x, ast.Name) and (x.id.startswith(("mask", "i_", "idx", "isvalid", "is_")) or "mask" in x.id or "outlier" in x.id or "inlier" in x.id):
                return True
            if isinstance(x, ast.Call):
                return True
            if isinstance(x, ast.Name):
                v = self.name(x.id, env)
                if v.k and v.k[0] == "arr":
                    return True
        return False

    def callx(self, e, env):
        fn = e.func
        txt = ast.unparse(fn)
        args = [(self.expr(a.value, env), True) if isinstance(a, ast.Starred) else (self.expr(a, env), False) for a in e.args]
        kws = [(k.arg, self.expr(k.value, env)) for k in e.keywords]
        f = self.expr(fn, env)
        if isinstance(fn, ast.Name) and fn.id in ("globals", "vars", "type") and fn.id not in env:
            g = "g:%s.%s" % (self.mod.name, txt + "()" if fn.id == "globals" or not args else ast.unparse(e))
            if fn.id == "globals" or fn.id == "type" and len(args) == 1 and self.F.cls and args[0][0].S == frozenset({"p:self"}):
                return V({g}, {g})
            if fn.id == "vars" and args:
                return V(args[0][0].S, args[0][0].C)
            return FRESH
        if isinstance(fn, ast.Name) and fn.id in SCALAR and fn.id not in env:
            return FRESH
        for k, v in kws:
            if k == "out":
                self.mutate(v, e, "out= of %s()" % txt, deep=True)
        if f.k and f.k[0] == "fn":
            return self.bind(f.k[1], args, kws, e, None)
        if f.k and f.k[0] == "cls":
            init = self.pkg.mods[f.k[1]].classes[f.k[2]].get("__init__")
            if init:
                self.bind(init, args, kws, e, V(n=SOME))
            return FRESH
        if isinstance(fn, ast.Attribute) and not (f.k and f.k[0] in ("mod", "pkgmod")):
            recv = self.expr(fn.value, env)
            m = fn.attr
            cands = self.pkg.methods.get(m, [])
            if isinstance(fn.value, ast.Name) and fn.value.id == "self" and self.F.cls:
                cands = [c for c in cands if c.cls == self.F.cls] or cands
            if cands and m not in MUTM and m not in ("write", "__init__"):
                r = None
                for c in cands:
                    v = self.bind(c, args, kws, e, recv)
                    r = v if r is None else r | v
                return r
            if m in MUTM:
                self.mutate(recv, e, ast.unparse(e)[:80])
                if isinstance(fn.value, ast.Name) and fn.value.id in env:
                    b = env[fn.value.id]
                    add = frozenset().union(*[v.C if s or m in ("extend", "update") else v.all() for v, s in args]) if args else frozenset()
                    for k, v in kws:
                        add |= v.all()
                    env[fn.value.id] = V(b.S, b.C | add, b.n, b.k)
            if m in INNERM:
                r = inner(recv)
                for v, s in args[1:]:
                    r = r | v
                return V(r.S, r.C)
            if m in ALIASM or m == "astype" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
                return V(recv.S, recv.C)
            if m == "copy" and not e.args:
                return V(frozenset(), recv.C)
            if m == "sort" or m == "partition":
                return V(n=NONE)
            return UNK
        base = txt.split(".")
        if txt in ALIAS and args:
            return V(args[0][0].S, args[0][0].C)
        if txt in ("np.array",) and args and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
            return V(args[0][0].S, args[0][0].C)
        if txt in ("np.nan_to_num",) and args and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
            self.mutate(args[0][0], e, ast.unparse(e)[:80])
            return V(args[0][0].S, args[0][0].C)
        if txt in SPLIT:
            C = frozenset().union(*[v.C for v, s in args]) if args else frozenset()
            if txt in ("np.split", "np.array_split", "np.broadcast_arrays", "np.vsplit", "np.hsplit"):
                C |= frozenset().union(*[v.S for v, s in args]) if args else frozenset()
            for k, v in kws:
                C |= v.all() if k else v.C
            if txt == "map" and args and args[0][0].k and args[0][0].k[0] == "fn":
                r = self.bind(args[0][0].k[1], [(inner(v), False) for v, s in args[1:]], [], e, None)
                return V(frozenset(), r.all(), SOME)
            return V(frozenset(), C, SOME)
        if txt in MUTF and args:
            self.mutate(args[0][0], e, ast.unparse(e)[:80])
        if base[-1] == "optimize" and base[0] in ("mrcal", "_mrcal"):
            for k, v in kws:
                if k is None:
                    self.mutate(V(v.C, v.C), e, ast.unparse(e)[:80], deep=True)
                elif k in OPT_INPLACE:
                    self.mutate(v, e, ast.unparse(e)[:80])
        if txt in ("getattr",) and args:
            return inner(args[0][0])
        if txt in ("reduce", "functools.reduce", "functools.partial", "partial") and args:
            return V(frozenset(), frozenset().union(*[v.C for v, s in args[1:]]) if args[1:] else frozenset())
        if base[0] in ("np", "numpy") and base[-1] in INDEXF:
            return V(n=SOME, k=("arr",))
        # callbacks handed to a library function have been analysed with unknown arguments
        return UNK

    def bind(self, F, args, kws, e, recv):
        a = {}
        pos = list(F.pos)
        if recv is not None and pos:
            a[pos.pop(0)] = recv
        extra = []
        for v, star in args:
            if star:
                for p in pos:
                    a[p] = a[p] | inner(v) if p in a else inner(v)
                if F.vararg:
                    extra.append(inner(v))
            elif pos:
                p = pos.pop(0)
                a[p] = v
            else:
                extra.append(v)
        if F.vararg:
            a[F.vararg] = V(frozenset(), frozenset().union(*[v.all() for v in extra]) if extra else frozenset(), SOME)
        kwx = frozenset()
        maybe = None
        for k, v in kws:
            if k is None:
                maybe = v
                kwx |= v.C
            elif k in F.pos or k in F.kwonly:
                a[k] = v
            else:
                kwx |= v.all()
        if F.kwarg:
            a[F.kwarg] = V(frozenset(), kwx, SOME)
        for p in F.pos + F.kwonly:
            if p not in a:
                d = F.defaults.get(p)
                if d is None:
                    a[p] = inner(maybe) if maybe is not None else UNK
                elif isinstance(d, ast.Constant):
                    a[p] = V(n=NONE) if d.value is None else V(n=SOME, k=("const", d.value))
                else:
                    a[p] = V({"d:%s.%s" % (F.qual(), p)}, {"d:%s.%s" % (F.qual(), p)}, SOME)
                if maybe is not None and d is not None:
                    a[p] = V(a[p].S | maybe.C, a[p].C | maybe.C)
        return self.apply(F, a, e)

    def apply(self, F, a, e):
        F.called = True
        if F.closure is not None:
            # a local function: analysed with the variables of the function around it
            if id(F.node) in self.pkg.active or len(self.pkg.active) > 8:
                return UNK
            self.pkg.active.append(id(F.node))
            try:
                an = Analysis(self.pkg, F, a)
                an.run()
                eff = an.eff
            finally:
                self.pkg.active.pop()
        else:
            eff = self.pkg.call(F, a)
        for r, site in eff.mut.items():
            self.eff.mut.setdefault(r, site)
        for r, site in eff.captured.items():
            self.eff.captured.setdefault(r, site)
        k = eff.ret.k if eff.ret.k and eff.ret.k[0] in ("tuple", "arr") else None
        return V(eff.ret.S, eff.ret.C, eff.ret.n if eff.returned else ANY, k)


INDEXF = {"argsort", "nonzero", "flatnonzero", "where", "arange", "isfinite", "isnan", "argwhere", "searchsorted", "lexsort", "unique", "logical_and",
          "logical_or", "logical_not", "in1d", "isin", "ones", "zeros", "array", "random"}
OPT_INPLACE = {"intrinsics", "extrinsics_fromref", "rt_cam_ref", "frames_rt_toref", "rt_ref_frame", "points", "calobject_warp",
               "observations_board", "observations_point"}
