"""Value numbering of Python sources: an evaluator of syntax trees over arrays whose shapes are known and whose elements
are terms.  Nothing of the analysed code is imported or executed: every construct and every library function has a transfer
function here; whatever has none raises Unsupported.

Branches on a term split the evaluation; every combination of outcomes is one path."""
import ast
import hashlib
import math
import os

import numpy as np

import front
import terms
from terms import BDD, MPInterp, P, Poly, fn, inv, sqrt, var


class Unsupported(Exception):
    pass


class Raised(Exception):
    """The evaluated code raises"""

    def __init__(self, where):
        self.where = where


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Cond:
    """A truth value that depends on terms"""

    def __init__(self, b):
        self.b = b

    def __invert__(self):
        return Cond(BDD.Not(self.b))

    def __and__(self, o):
        return Cond(BDD.And(self.b, cond(o).b))

    __rand__ = __and__

    def __or__(self, o):
        return Cond(BDD.Or(self.b, cond(o).b))

    __ror__ = __or__

    def __mul__(self, o):
        if isinstance(o, (Cond, bool, np.bool_)):
            return self & o
        return NotImplemented

    __rmul__ = __mul__


def cond(x):
    return x if isinstance(x, Cond) else Cond(BDD.T if x else BDD.F)


class E:
    """A term as an array element"""
    __slots__ = ("p",)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    @staticmethod
    def of(x):
        if isinstance(x, E):
            return x
        if isinstance(x, Poly):
            return E(x)
        if isinstance(x, (bool, np.bool_)):
            return E(P(int(x)))
        if isinstance(x, (int, np.integer)):
            return E(P(int(x)))
        if isinstance(x, (float, np.floating)):
            x = float(x)
            if x != x or x in (math.inf, -math.inf):
                return E(var("nonfinite", repr(x)))
            return E(P(x))
        raise Unsupported("arithmetic on %s" % type(x).__name__)

    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, Cond):
            o = E(terms.ite(o.b, P(1), P(0)))
        return E(f(self.p, E.of(o).p))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a * inv(b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b * inv(a))

    def __neg__(self):
        return E(-self.p)

    def __pos__(self):
        return self

    def __abs__(self):
        c = self.p.const()
        return E(P(abs(c))) if c is not None else E(fn("fabs", self.p))

    def __pow__(self, n):
        if isinstance(n, E):
            n = n.p.const()
        if isinstance(n, (int, float, np.integer)) or n is not None:
            if n == int(n) and n >= 0:
                return E(self.p ** int(n))
            if n == int(n):
                return E(inv(self.p ** int(-n)))
            if n * 2 == int(n * 2) and n > 0:
                return E(sqrt(self.p) ** int(n * 2))
        raise Unsupported("power")

    def sqrt(self):
        return E(sqrt(self.p))

    def sin(self):
        return E(fn("sin", self.p))

    def cos(self):
        return E(fn("cos", self.p))

    def tan(self):
        return E(fn("tan", self.p))

    def arctan(self):
        return E(fn("atan", self.p))

    def arcsin(self):
        return E(fn("asin", self.p))

    def arccos(self):
        return E(fn("acos", self.p))

    def exp(self):
        return E(fn("exp", self.p))

    def log(self):
        return E(fn("log", self.p))

    def arctan2(self, o):
        return E(fn("atan2", self.p, E.of(o).p))

    def conjugate(self):
        return self

    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if o is None:
            return False
        r = Cond(f(self.p - E.of(o).p))
        return r.b is BDD.T if r.b in (BDD.T, BDD.F) else r

    def __gt__(self, o):
        return self._cmp(o, terms.pos)

    def __lt__(self, o):
        return self._cmp(o, lambda d: terms.pos(-d))

    def __ge__(self, o):
        return self._cmp(o, terms.nonneg)

    def __le__(self, o):
        return self._cmp(o, lambda d: terms.nonneg(-d))

    def __eq__(self, o):
        if isinstance(o, str) or o is None:
            return False
        return self._cmp(o, terms.eq0)

    def __ne__(self, o):
        if isinstance(o, str) or o is None:
            return True
        return self._cmp(o, lambda d: BDD.Not(terms.eq0(d)))

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return "E(%s)" % terms.show(self.p, 1, 3)


def arr(x):
    """An object array of terms"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    x = np.asarray(x, dtype=object)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        v = x[i]
        out[i] = v if isinstance(v, Cond) else E.of(v)
    return out


def symbols(name, shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = E(var(name, *i))
    return out


def unwrap(x):
    return x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x


class Func:
    def __init__(self, node, scopes, mod, interp, name=None):
        self.node, self.scopes, self.mod, self.interp = node, scopes, mod, interp
        self.name = name or getattr(node, "name", "<lambda>")
        self.attrs = {}
        a = node.args
        self.defaults = None
        self.bcast = None

    def bind_defaults(self, ev):
        a = self.node.args
        self.defaults = [ev(d) for d in a.defaults]
        self.kwdefaults = [ev(d) if d is not None else None for d in a.kw_defaults]


class Mod:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<module %s>" % self.path


class Leaf:
    """A function with a given transfer function"""

    def __init__(self, name, f):
        self.name, self.f = name, f


BUILTINS = {"len": len, "range": range, "int": None, "float": None, "abs": abs, "min": None, "max": None, "zip": zip, "enumerate": enumerate,
            "list": list, "tuple": tuple, "dict": dict, "set": set, "sum": None, "isinstance": None, "str": str, "bool": bool, "repr": repr,
            "reversed": lambda x: list(reversed(x)), "sorted": sorted, "print": lambda *a, **k: None, "type": type, "any": None, "all": None,
            "slice": slice, "map": None, "filter": None, "hasattr": None, "getattr": None, "callable": None}
EXC = ("Exception", "RuntimeError", "ValueError", "TypeError", "KeyError", "IndexError", "NotImplementedError", "AttributeError", "OSError", "IOError")

NP_DIRECT = {"transpose", "reshape", "ravel", "swapaxes", "moveaxis", "concatenate", "stack", "vstack", "hstack", "repeat", "tile", "expand_dims", "squeeze",
             "broadcast_to", "cross", "diag", "trace", "atleast_1d", "atleast_2d", "outer", "dot", "matmul", "shape", "prod", "cumsum", "flip", "roll",
             "sum", "square", "triu", "tril", "add", "subtract", "multiply", "ix_", "einsum_", "copy", "array_equal_", "broadcast_arrays", "broadcast_shapes",
             "atleast_3d", "column_stack", "flipud", "fliplr", "ndim", "size", "delete", "append", "negative", "diff"}
NP_CONST = {"pi": math.pi, "nan": math.nan, "inf": math.inf, "newaxis": None, "float64": float, "int32": int, "float32": float, "e": math.e, "uint8": int, "int64": int}
NP_UFUNC = {"sqrt": E.sqrt, "sin": E.sin, "cos": E.cos, "tan": E.tan, "arctan": E.arctan, "arcsin": E.arcsin, "arccos": E.arccos, "exp": E.exp, "log": E.log,
            "abs": E.__abs__, "absolute": E.__abs__, "fabs": E.__abs__}


class Program:
    """The package's modules: names -> function syntax trees"""

    def __init__(self, pkgdir, leaves=None, star=("poseutils",)):
        self.dir = pkgdir
        self.trees = {}
        self.public = {}
        self.leaves = leaves or {}

    def module(self, name):
        if name not in self.trees:
            p = os.path.join(self.dir, name + ".py")
            if not os.path.exists(p):
                return None
            t = ast.parse(open(p, encoding="utf-8").read())
            d = {}
            for s in t.body:
                if isinstance(s, ast.FunctionDef):
                    d[s.name] = s
            self.trees[name] = (t, d)
        return self.trees[name]

    def find(self, fname):
        """mrcal.<fname>: the module that defines it"""
        if not self.public:
            for f in sorted(os.listdir(self.dir)):
                if f.endswith(".py") and f != "__init__.py":
                    for k in self.module(f[:-3])[1]:
                        self.public.setdefault(k, f[:-3])
        return self.public.get(fname)


class Interp:
    def __init__(self, prog, decisions=(), fuel=200000):
        self.prog = prog
        self.decisions = list(decisions)
        self.taken = []
        self.path = BDD.T
        self.fuel = fuel
        self.modenv = {}
        self.depth = 0
        self.leafcalls = []

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        v = unwrap(v)
        if isinstance(v, Cond):
            f = BDD.constrain(v.b, self.path)
            if f is BDD.T:
                return True
            if f is BDD.F:
                return False
            k = len(self.taken)
            d = self.decisions[k] if k < len(self.decisions) else True
            self.taken.append(d)
            self.path = BDD.And(self.path, v.b if d else BDD.Not(v.b))
            return d
        if isinstance(v, E):
            c = v.p.const()
            if c is not None:
                return c != 0
            return self.truth(Cond(BDD.Not(terms.eq0(v.p))))
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return self.truth(v.reshape(-1)[0])
            raise Unsupported("truth of an array")
        return bool(v)

    # ---------------------------------------------------------------- calls
    def lookup_mrcal(self, name, from_mod=None):
        if name in self.prog.leaves:
            return Leaf(name, self.prog.leaves[name])
        m = self.prog.find(name)
        if m is None:
            return Mod("mrcal." + name)
        return self.module_attr(m, name)

    def module_attr(self, m, name):
        if m + "." + name in self.prog.leaves:
            return Leaf(name, self.prog.leaves[m + "." + name])
        if name in self.prog.leaves:
            return Leaf(name, self.prog.leaves[name])
        t, d = self.prog.module(m)
        if name in d:
            f = Func(d[name], [], m, self)
            f.bind_defaults(lambda e: self.expr(e, [{}], m))
            return f
        env = self.module_env(m)
        if name in env:
            return env[name]
        raise Unsupported("%s.%s" % (m, name))

    def module_env(self, m):
        env = self.modenv.get(m)
        if env is None:
            env = self.modenv[m] = {}
            for s in self.prog.module(m)[0].body:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        env[a.asname or a.name.split(".")[0]] = Mod(a.name if a.asname else a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        if s.level and not s.module:
                            env[a.asname or a.name] = Mod("mrcal." + a.name)
                        elif s.module == "functools" and a.name == "reduce":
                            env[a.asname or a.name] = Leaf("reduce", None)
                        elif a.name != "*":
                            env[a.asname or a.name] = ("from", s.module, s.level, a.name)
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Constant, ast.UnaryOp, ast.Tuple)):
                    try:
                        env[s.targets[0].id] = ast.literal_eval(s.value)
                    except ValueError:
                        pass
        return env

    def call(self, f, args, kw, where=None):
        if isinstance(f, Leaf):
            if f.name == "reduce":
                fn_, seq = args[0], list(args[1])
                if not seq and len(args) < 3:
                    raise Raised("reduce() of an empty sequence")
                acc = args[2] if len(args) > 2 else seq.pop(0)
                for x in seq:
                    acc = self.call(fn_, [acc, x], {})
                return acc
            self.leafcalls.append((f.name, args, kw))
            return f.f(self, args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundMethod):
            return self.method(f.obj, f.name, args, kw)
        if isinstance(f, ExcType):
            return f
        if isinstance(f, Mod):
            return self.lib(f.path, args, kw)
        if callable(f):
            return f(*args, **kw)
        raise Unsupported("call of %r" % (f,))

    def call_func(self, f, args, kw):
        if f.bcast is not None:
            return self.broadcasted(f, args, kw)
        return self.call_plain(f, args, kw)

    def call_plain(self, f, args, kw):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and a.vararg is None:
            raise Raised("too many arguments for " + f.name)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in env:
                    raise Raised("multiple values for " + k)
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Raised("unexpected argument %s of %s" % (k, f.name))
        if a.kwarg:
            env[a.kwarg.arg] = extra
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            env.setdefault(n, d)
        for n, d, e in zip(kwonly, f.kwdefaults, a.kw_defaults):
            if n not in env:
                if e is None:
                    raise Raised("missing argument " + n)
                env[n] = d
        for n in names:
            if n not in env:
                raise Raised("missing argument %s of %s" % (n, f.name))
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("recursion")
        try:
            if isinstance(f.node, ast.Lambda):
                return self.expr(f.node.body, f.scopes + [env], f.mod)
            try:
                self.block(f.node.body, f.scopes + [env], f.mod)
            except _Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def broadcasted(self, f, args, kw):
        """@nps.broadcast_define(prototypes, out_prototype)"""
        protos = f.bcast
        kw = dict(kw)
        kw.pop("out", None)
        return self.broadcast(protos, args, lambda sl: self.call_plain(f, list(sl) + list(args[len(protos):]), kw))

    def broadcast(self, protos, args, fslice):
        extra = []
        for p, a in zip(protos, args):
            a = arr(a)
            extra.append(a.shape[:a.ndim - len(p)])
        shape = np.broadcast_shapes(*extra) if extra else ()
        res = None
        arrs = [np.broadcast_to(arr(a), shape + arr(a).shape[arr(a).ndim - len(p):]) for p, a in zip(protos, args)]
        for i in np.ndindex(*shape):
            r = fslice([a[i] for a in arrs])
            tup = isinstance(r, tuple)
            rs = [arr(x) for x in (r if tup else (r,))]
            if res is None:
                res = [np.empty(shape + x.shape, dtype=object) for x in rs]
            for o, x in zip(res, rs):
                o[i] = x[()] if x.ndim == 0 else x
        if res is None:
            raise Unsupported("empty broadcast")
        return tuple(res) if tup else res[0]

    # ---------------------------------------------------------------- statements
    def block(self, body, sc, mod):
        for s in body:
            self.stmt(s, sc, mod)

    def stmt(self, s, sc, mod):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("too long")
        if isinstance(s, ast.Return):
            raise _Ret(self.expr(s.value, sc, mod) if s.value else None)
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.expr(s.value, sc, mod)
        elif isinstance(s, ast.Assign):
            v = self.expr(s.value, sc, mod)
            for t in s.targets:
                self.assign(t, v, sc, mod)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.expr(s.value, sc, mod), sc, mod)
        elif isinstance(s, ast.AugAssign):
            self.augassign(s, sc, mod)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.expr(s.test, sc, mod)) else s.orelse, sc, mod)
        elif isinstance(s, ast.For):
            it = self.iterate(self.expr(s.iter, sc, mod))
            for v in it:
                self.assign(s.target, v, sc, mod)
                try:
                    self.block(s.body, sc, mod)
                except _Break:
                    break
                except _Continue:
                    continue
            else:
                self.block(s.orelse, sc, mod)
        elif isinstance(s, ast.While):
            n = 0
            while self.truth(self.expr(s.test, sc, mod)):
                n += 1
                if n > 2000:
                    raise Unsupported("loop")
                try:
                    self.block(s.body, sc, mod)
                except _Break:
                    break
                except _Continue:
                    continue
        elif isinstance(s, ast.Break):
            raise _Break()
        elif isinstance(s, ast.Continue):
            raise _Continue()
        elif isinstance(s, ast.Raise):
            raise Raised("line %d" % s.lineno)
        elif isinstance(s, ast.Assert):
            if not self.truth(self.expr(s.test, sc, mod)):
                raise Raised("assertion, line %d" % s.lineno)
        elif isinstance(s, ast.FunctionDef):
            f = Func(s, list(sc), mod, self)
            f.bind_defaults(lambda e: self.expr(e, sc, mod))
            for d in s.decorator_list:
                ok = isinstance(d, ast.Call) and ast.unparse(d.func).endswith("broadcast_define")
                if not ok:
                    raise Unsupported("decorator")
                f.bcast = list(self.expr(d.args[0], sc, mod))
            sc[-1][s.name] = f
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Try):
            try:
                self.block(s.body, sc, mod)
            except Raised:
                for h in s.handlers:
                    if h.name:
                        sc[-1][h.name] = "<exception>"
                    self.block(h.body, sc, mod)
                    break
                else:
                    raise
            else:
                self.block(s.orelse, sc, mod)
            finally:
                self.block(s.finalbody, sc, mod)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            if isinstance(s, ast.Import):
                for a in s.names:
                    sc[-1][a.asname or a.name.split(".")[0]] = Mod(a.name if a.asname else a.name.split(".")[0])
            else:
                raise Unsupported("import from")
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    sc[-1].pop(t.id, None)
                else:
                    raise Unsupported("del")
        elif isinstance(s, (ast.Global, ast.Nonlocal)):
            raise Unsupported("global")
        else:
            raise Unsupported(type(s).__name__)

    def iterate(self, v):
        if isinstance(v, np.ndarray):
            return [v[i] for i in range(v.shape[0])]
        if isinstance(v, (E, Cond)):
            raise Unsupported("iteration")
        return list(v)

    def assign(self, t, v, sc, mod):
        if isinstance(t, ast.Name):
            sc[-1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                n = len(vs) - len(t.elts) + 1
                vs = vs[:i] + [vs[i:i + n]] + vs[i + n:]
            if len(vs) != len(t.elts):
                raise Raised("unpacking %d values into %d" % (len(vs), len(t.elts)))
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, sc, mod)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, sc, mod)
            self.setitem(o, self.index(t.slice, sc, mod), v)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, sc, mod)
            if isinstance(o, Func):
                o.attrs[t.attr] = v
                return
            raise Unsupported("attribute assignment")
        else:
            raise Unsupported("assignment")

    def setitem(self, o, i, v):
        if isinstance(o, dict):
            o[i] = v
            return
        if isinstance(o, list):
            o[i] = v
            return
        if not isinstance(o, np.ndarray):
            raise Unsupported("item assignment on %s" % type(o).__name__)
        m = self.mask(i)
        if m is not None:
            if o.dtype != object:
                raise Unsupported("masked assignment")
            v = np.broadcast_to(arr(v), o.shape[m.ndim:]) if arr(v).ndim <= o.ndim - m.ndim else None
            if v is None:
                raise Unsupported("masked assignment of an array")
            for ix in np.ndindex(m.shape):
                c = cond(m[ix]).b
                if c is BDD.F:
                    continue
                for jx in np.ndindex(o.shape[m.ndim:]):
                    o[ix + jx] = E(terms.ite(c, E.of(v[jx]).p, E.of(o[ix + jx]).p))
            return
        if o.dtype == object:
            v = v if isinstance(v, (Cond, E)) else unwrap(arr(v))
        elif isinstance(v, (E,)) or isinstance(v, np.ndarray) and v.dtype == object:
            raise Unsupported("terms stored in a native array")
        try:
            o[i] = v
        except (ValueError, IndexError) as e:
            raise Raised(str(e))

    def mask(self, i):
        """A boolean mask index with a symbolic element"""
        i = i[0] if isinstance(i, tuple) and len(i) == 1 else i
        if isinstance(i, np.ndarray) and i.dtype == object and i.size and all(isinstance(x, (Cond, bool, np.bool_)) for x in i.flat):
            if any(isinstance(x, Cond) for x in i.flat):
                return i
        if isinstance(i, Cond):
            return arr_cond(i)
        return None

    def augassign(self, s, sc, mod):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.expr(t, sc, mod)
            v = self.expr(s.value, sc, mod)
            if isinstance(cur, np.ndarray) and cur.ndim:
                self.inplace(cur, Ellipsis, s.op, v)
            elif isinstance(cur, list) and isinstance(s.op, ast.Add):
                cur.extend(v)
            else:
                sc[-1][t.id] = self.binop(s.op, cur, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, sc, mod)
            i = self.index(t.slice, sc, mod)
            v = self.expr(s.value, sc, mod)
            if isinstance(o, np.ndarray):
                self.inplace(o, i, s.op, v)
            else:
                self.setitem(o, i, self.binop(s.op, o[i], v))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, o, i, op, v):
        if o.dtype != object and (isinstance(v, E) or isinstance(v, np.ndarray) and v.dtype == object):
            raise Unsupported("terms stored in a native array")
        if self.mask(i) is not None:
            raise Unsupported("masked update")
        try:
            r = self.binop(op, o[i], v)
            o[i] = r
        except ValueError as e:
            raise Raised(str(e))

    # ---------------------------------------------------------------- expressions
    def index(self, n, sc, mod):
        if isinstance(n, ast.Tuple):
            return tuple(self.index(x, sc, mod) for x in n.elts)
        if isinstance(n, ast.Slice):
            g = lambda x: None if x is None else self.as_int(self.expr(x, sc, mod))
            return slice(g(n.lower), g(n.upper), g(n.step))
        v = self.expr(n, sc, mod)
        if isinstance(v, E):
            return self.as_int(v)
        return v

    def as_int(self, v):
        v = unwrap(v)
        if isinstance(v, E):
            c = v.p.const()
            if c is None or c != int(c):
                raise Unsupported("symbolic index")
            return int(c)
        return v

    def binop(self, op, a, b):
        a, b = unwrap(a), unwrap(b)
        if isinstance(a, float) or isinstance(a, np.ndarray) and a.dtype.kind == "f":
            a = arr(a) if isinstance(a, np.ndarray) else E.of(a)
        if isinstance(b, float) or isinstance(b, np.ndarray) and b.dtype.kind == "f":
            b = arr(b) if isinstance(b, np.ndarray) else E.of(b)
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Div):
                if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
                    return E.of(a) / E.of(b)
                if isinstance(a, np.ndarray) and a.dtype != object:
                    a = arr(a)
                return a / b
            if isinstance(op, ast.Pow):
                return a ** (int(b.p.const()) if isinstance(b, E) and b.p.const() is not None and b.p.const() == int(b.p.const()) else b)
            if isinstance(op, ast.MatMult):
                return np.matmul(arr(a), arr(b))
            if isinstance(op, ast.FloorDiv):
                return a // b
            if isinstance(op, ast.Mod):
                if isinstance(a, str):
                    return "<string>"
                return a % b
            if isinstance(op, ast.BitAnd):
                return a & b
            if isinstance(op, ast.BitOr):
                return a | b
        except ValueError as e:
            raise Raised(str(e))
        except TypeError as e:
            raise Unsupported(str(e))
        raise Unsupported(type(op).__name__)

    def name(self, n, sc, mod):
        for d in reversed(sc):
            if n in d:
                return d[n]
        t = self.prog.module(mod)
        if t and (n in t[1] or n in self.prog.leaves and self.prog.find(n) == mod):
            return self.module_attr(mod, n)
        env = self.module_env(mod)
        if n in env:
            v = env[n]
            if isinstance(v, tuple) and v and v[0] == "from":
                m = (v[1] or "").split(".")[-1]
                if self.prog.module(m):
                    return self.module_attr(m, v[3])
                raise Unsupported("name " + n)
            return v
        if n in BUILTINS:
            if BUILTINS[n] is not None:
                return BUILTINS[n]
            return getattr(self, "b_" + n)
        if n in EXC:
            return ExcType()
        if n in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n]
        raise Unsupported("name " + n)

    def b_int(self, x=0):
        x = unwrap(x)
        if isinstance(x, E):
            c = x.p.const()
            if c is None:
                return E(fn("fptosi", x.p))
            return int(c)
        return int(x)

    def b_float(self, x=0):
        return E.of(x) if not isinstance(x, str) else E.of(float(x))

    def b_min(self, *a):
        a = list(a[0]) if len(a) == 1 else a
        if any(isinstance(x, E) and x.p.const() is None for x in a):
            r = E.of(a[0])
            for x in a[1:]:
                r = E(terms.ite(cond(r < x).b, r.p, E.of(x).p))
            return r
        return min(a, key=lambda x: x.p.const() if isinstance(x, E) else x)

    def b_max(self, *a):
        a = list(a[0]) if len(a) == 1 else a
        if any(isinstance(x, E) and x.p.const() is None for x in a):
            r = E.of(a[0])
            for x in a[1:]:
                r = E(terms.ite(cond(r > x).b, r.p, E.of(x).p))
            return r
        return max(a, key=lambda x: x.p.const() if isinstance(x, E) else x)

    def b_sum(self, x, start=0):
        for v in self.iterate(x):
            start = self.binop(ast.Add(), start, v)
        return start

    def b_any(self, x):
        return any(self.truth(v) for v in self.iterate(x))

    def b_all(self, x):
        return all(self.truth(v) for v in self.iterate(x))

    def b_map(self, f, *xs):
        return [self.call(f, list(t), {}) for t in zip(*[self.iterate(x) for x in xs])]

    def b_filter(self, f, x):
        return [v for v in self.iterate(x) if self.truth(self.call(f, [v], {}) if f is not None else v)]

    def b_isinstance(self, x, t):
        ts = t if isinstance(t, tuple) else (t,)
        r = False
        for q in ts:
            if isinstance(q, Mod) and q.path.endswith("ndarray"):
                r |= isinstance(x, np.ndarray)
            elif q is str:
                r |= isinstance(x, str)
            elif q in (list, tuple, dict, set, bool):
                r |= isinstance(x, q)
            elif getattr(q, "__name__", "") == "b_float":
                r |= isinstance(x, E)
            elif getattr(q, "__name__", "") == "b_int":
                r |= isinstance(x, int)
            else:
                raise Unsupported("isinstance")
        return r

    def b_hasattr(self, x, n):
        raise Unsupported("hasattr")

    b_getattr = b_hasattr

    def b_callable(self, x):
        return isinstance(x, (Func, Leaf))

    def expr(self, n, sc, mod):
        if isinstance(n, ast.Constant):
            return E.of(n.value) if isinstance(n.value, float) else n.value
        if isinstance(n, ast.Name):
            return self.name(n.id, sc, mod)
        if isinstance(n, ast.Tuple):
            return tuple(self.seq(n.elts, sc, mod))
        if isinstance(n, ast.List):
            return list(self.seq(n.elts, sc, mod))
        if isinstance(n, ast.Set):
            return set(self.seq(n.elts, sc, mod))
        if isinstance(n, ast.Dict):
            d = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    d.update(self.expr(v, sc, mod))
                else:
                    d[self.expr(k, sc, mod)] = self.expr(v, sc, mod)
            return d
        if isinstance(n, ast.UnaryOp):
            v = unwrap(self.expr(n.operand, sc, mod))
            if isinstance(n.op, ast.Not):
                return not self.truth(v)
            if isinstance(n.op, ast.USub):
                return -v if not isinstance(v, np.ndarray) or v.dtype == object else -v
            if isinstance(n.op, ast.Invert):
                if isinstance(v, np.ndarray) and v.dtype == object:
                    out = np.empty(v.shape, dtype=object)
                    for i in np.ndindex(v.shape):
                        out[i] = ~cond(v[i])
                    return out
                if isinstance(v, bool):
                    return not v
                return ~v
            return v
        if isinstance(n, ast.BinOp):
            return self.binop(n.op, self.expr(n.left, sc, mod), self.expr(n.right, sc, mod))
        if isinstance(n, ast.BoolOp):
            for x in n.values:
                v = self.expr(x, sc, mod)
                t = self.truth(v)
                if isinstance(n.op, ast.And) and not t or isinstance(n.op, ast.Or) and t:
                    return v if not isinstance(unwrap(v), Cond) else t
            return v if not isinstance(unwrap(v), Cond) else t
        if isinstance(n, ast.Compare):
            l = self.expr(n.left, sc, mod)
            res = None
            for op, r_ in zip(n.ops, n.comparators):
                r = self.expr(r_, sc, mod)
                c = self.compare(op, l, r)
                if len(n.ops) == 1:
                    return c
                if not self.truth(c):
                    return False
                res, l = True, r
            return res
        if isinstance(n, ast.IfExp):
            return self.expr(n.body if self.truth(self.expr(n.test, sc, mod)) else n.orelse, sc, mod)
        if isinstance(n, ast.Subscript):
            return self.getitem(self.expr(n.value, sc, mod), self.index(n.slice, sc, mod))
        if isinstance(n, ast.Attribute):
            return self.attr(self.expr(n.value, sc, mod), n.attr, mod)
        if isinstance(n, ast.Call):
            f = self.expr(n.func, sc, mod)
            args = list(self.seq(n.args, sc, mod))
            kw = {}
            for k in n.keywords:
                if k.arg is None:
                    kw.update(self.expr(k.value, sc, mod))
                else:
                    kw[k.arg] = self.expr(k.value, sc, mod)
            return self.call(f, args, kw)
        if isinstance(n, ast.JoinedStr):
            return "<string>"
        if isinstance(n, ast.Lambda):
            f = Func(n, list(sc), mod, self)
            f.bind_defaults(lambda e: self.expr(e, sc, mod))
            return f
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            out = []
            self.comp(n.generators, sc + [{}], mod, lambda s: out.append(self.expr(n.elt, s, mod)))
            return set(out) if isinstance(n, ast.SetComp) else out
        if isinstance(n, ast.DictComp):
            d = {}
            self.comp(n.generators, sc + [{}], mod, lambda s: d.__setitem__(self.expr(n.key, s, mod), self.expr(n.value, s, mod)))
            return d
        if isinstance(n, ast.Starred):
            raise Unsupported("starred")
        raise Unsupported(type(n).__name__)

    def comp(self, gens, sc, mod, f):
        if not gens:
            f(sc)
            return
        g = gens[0]
        for v in self.iterate(self.expr(g.iter, sc, mod)):
            self.assign(g.target, v, sc, mod)
            if all(self.truth(self.expr(c, sc, mod)) for c in g.ifs):
                self.comp(gens[1:], sc, mod, f)

    def seq(self, elts, sc, mod):
        for x in elts:
            if isinstance(x, ast.Starred):
                yield from self.iterate(self.expr(x.value, sc, mod))
            else:
                yield self.expr(x, sc, mod)

    def compare(self, op, l, r):
        l, r = unwrap(l), unwrap(r)
        if isinstance(op, ast.Is):
            return l is r
        if isinstance(op, ast.IsNot):
            return l is not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(r, np.ndarray) or isinstance(l, E):
                raise Unsupported("in")
            return (l in r) == isinstance(op, ast.In)
        f = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.Gt: lambda a, b: a > b,
             ast.LtE: lambda a, b: a <= b, ast.GtE: lambda a, b: a >= b}[type(op)]
        if isinstance(l, np.ndarray) or isinstance(r, np.ndarray):
            if isinstance(l, np.ndarray) and l.dtype != object and isinstance(r, (int, float)) or \
               isinstance(l, np.ndarray) and isinstance(r, np.ndarray) and l.dtype != object and r.dtype != object:
                return f(l, r)
            L, R = np.broadcast_arrays(arr(l), arr(r))
            out = np.empty(L.shape, dtype=object)
            for i in np.ndindex(L.shape):
                out[i] = f(L[i], R[i])
            return out
        try:
            return f(l, r)
        except TypeError as e:
            raise Unsupported(str(e))

    def getitem(self, o, i):
        if isinstance(o, np.ndarray):
            if self.mask(i) is not None:
                raise Unsupported("masked read")
            try:
                i = i if not isinstance(i, tuple) else tuple(self.as_int(x) if isinstance(x, E) else x for x in i)
                return o[i]
            except IndexError as e:
                raise Raised(str(e))
            except ValueError as e:
                raise Raised(str(e))
        if isinstance(o, (list, tuple, str, range)):
            try:
                return o[self.as_int(i) if not isinstance(i, slice) else i]
            except IndexError:
                raise Raised("index")
        if isinstance(o, dict):
            if i not in o:
                raise Raised("key")
            return o[i]
        raise Unsupported("subscript of %s" % type(o).__name__)

    def attr(self, o, a, mod):
        if isinstance(o, Mod):
            p = o.path
            if p in ("numpy", "np"):
                if a in NP_CONST:
                    v = NP_CONST[a]
                    return E.of(v) if isinstance(v, float) else v
                return Mod("numpy." + a)
            if p == "mrcal":
                m = self.prog.module(a) if a != "poseutils" else None
                return self.lookup_mrcal(a) if self.prog.find(a) or a in self.prog.leaves else Mod("mrcal." + a)
            if p.startswith("mrcal."):
                sub = p.split(".", 1)[1]
                if sub + "." + a in self.prog.leaves:
                    return Leaf(a, self.prog.leaves[sub + "." + a])
                if self.prog.module(sub):
                    return self.module_attr(sub, a)
            if p == "functools" and a == "reduce":
                return Leaf("reduce", None)
            return Mod(p + "." + a)
        if isinstance(o, np.ndarray):
            if a == "shape":
                return o.shape
            if a == "ndim":
                return o.ndim
            if a == "size":
                return o.size
            if a == "T":
                return o.T
            if a == "dtype":
                return o.dtype if o.dtype != object else float
            if a == "flat":
                return list(o.flat)
            return BoundMethod(o, a)
        if isinstance(o, E):
            if a == "shape":
                return ()
            if a == "ndim":
                return 0
            if a == "size":
                return 1
            return BoundMethod(o, a)
        if isinstance(o, Func):
            if a == "__dict__":
                return o.attrs
            if a in o.attrs:
                return o.attrs[a]
            raise Raised("attribute")
        if isinstance(o, (str, list, dict, tuple, set)):
            return BoundMethod(o, a)
        if isinstance(o, Obj):
            return o.attr(self, a)
        raise Unsupported("attribute %s of %s" % (a, type(o).__name__))

    def method(self, o, n, args, kw):
        if isinstance(o, E):
            if n in ("copy", "astype"):
                return o
            o = arr(o)
        if isinstance(o, np.ndarray):
            if n == "astype":
                t = args[0] if args else kw.get("dtype")
                if o.dtype == object and t not in (float, object) and getattr(t, "__name__", "") != "b_float":
                    return self.elementwise(lambda x: E(fn("fptosi", x.p)) if x.p.const() is None else E(P(int(x.p.const()))), o)
                return arr(o).copy() if t is float or getattr(t, "__name__", "") == "b_float" else o.astype(t)
            if n in ("copy", "ravel", "reshape", "transpose", "flatten", "squeeze", "sum", "swapaxes", "repeat", "cumsum", "tolist", "prod", "trace", "dot"):
                try:
                    args = [tuple(self.as_int(y) for y in x) if isinstance(x, tuple) else self.as_int(x) for x in args]
                    return getattr(o, n)(*args, **kw)
                except ValueError as e:
                    raise Raised(str(e))
            if n in ("any", "all", "min", "max", "mean"):
                return self.lib("numpy." + n, [o] + args, kw)
            if n == "item":
                return o.reshape(-1)[args[0] if args else 0]
            raise Unsupported("ndarray.%s" % n)
        if isinstance(o, (str, list, dict, tuple, set)):
            if isinstance(o, str) and o == "<string>":
                raise Unsupported("string method")
            return getattr(o, n)(*args, **kw)
        raise Unsupported("method " + n)

    def elementwise(self, f, *xs):
        A = np.broadcast_arrays(*[arr(x) for x in xs]) if len(xs) > 1 else [arr(xs[0])]
        out = np.empty(A[0].shape, dtype=object)
        for i in np.ndindex(A[0].shape):
            out[i] = f(*[a[i] for a in A])
        return unwrap(out)

    # ---------------------------------------------------------------- libraries
    def lib(self, path, args, kw):
        root, _, name = path.rpartition(".")
        try:
            if root == "numpy":
                return self.np(name, args, kw)
            if root == "numpy.linalg":
                return self.linalg(name, args, kw)
            if root in ("numpysane", "nps"):
                return self.nps(name, args, kw)
            if path in ("sys.stderr.write",):
                return None
            if path == "copy.deepcopy" or path == "copy.copy":
                return args[0].copy() if isinstance(args[0], np.ndarray) else args[0]
        except ValueError as e:
            raise Raised("%s: %s" % (path, e))
        raise Unsupported("call of " + path)

    def is_float(self, dt):
        return dt is None or dt is float or getattr(dt, "__name__", "") in ("b_float", "float", "float64", "float32") or dt is object

    def np(self, name, a, kw):
        kw = dict(kw)
        if name in ("zeros", "ones", "empty", "full"):
            shape = a[0]
            shape = tuple(self.as_int(x) for x in shape) if isinstance(shape, (tuple, list)) else (self.as_int(shape),) if not isinstance(shape, tuple) else shape
            dt = kw.get("dtype", a[2 if name == "full" else 1] if len(a) > (2 if name == "full" else 1) else None)
            if not self.is_float(dt):
                return np.zeros(shape, dtype=int if dt is not bool else bool) + (1 if name == "ones" else 0)
            v = {"zeros": E(P(0)), "ones": E(P(1)), "empty": E(var("uninitialised"))}.get(name)
            out = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                out[i] = v if v is not None else E.of(a[1])
            return out
        if name in ("zeros_like", "ones_like", "empty_like"):
            return self.np(name[:-5], [arr(a[0]).shape], {})
        if name in ("eye", "identity"):
            return arr(np.eye(a[0]))
        if name in ("array", "asarray", "ascontiguousarray", "asfarray"):
            x = a[0]
            if isinstance(x, np.ndarray):
                return x.copy() if name == "array" else x
            y = np.array(x, dtype=object) if not isinstance(x, (E, Cond)) else arr(x)
            if y.dtype == object and y.size and all(isinstance(v, (bool, np.bool_)) for v in y.flat):
                return y.astype(bool)
            if y.size and all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in y.flat) and not ("dtype" in kw and self.is_float(kw["dtype"])):
                return y.astype(int)
            if y.size and any(isinstance(v, (str, Func, dict, type(None))) for v in y.flat):
                raise Unsupported("array of objects")
            return arr(y)
        if name == "arange":
            v = [self.as_int(x) for x in a]
            r = np.arange(*v)
            return arr(r) if "dtype" in kw and self.is_float(kw["dtype"]) else r
        if name == "linspace":
            n = self.as_int(a[2] if len(a) > 2 else kw.get("num", 50))
            lo, hi = E.of(a[0]), E.of(a[1])
            return arr([lo + (hi - lo) * E(P(terms.Fraction(i, n - 1))) for i in range(n)])
        if name in NP_UFUNC:
            if "out" in kw:
                kw["out"][...] = self.elementwise(lambda x: NP_UFUNC[name](E.of(x)), a[0])
                return kw["out"]
            return self.elementwise(lambda x: NP_UFUNC[name](E.of(x)), a[0])
        if name in ("arctan2", "hypot"):
            return self.elementwise((lambda x, y: E.of(x).arctan2(y)) if name == "arctan2" else (lambda x, y: (x * x + y * y).sqrt()), a[0], a[1])
        if name in ("maximum", "minimum"):
            return self.elementwise(lambda x, y: E(terms.ite(cond(x > y if name == "maximum" else x < y).b, E.of(x).p, E.of(y).p)), a[0], a[1])
        if name in ("isfinite",):
            return self.elementwise(lambda x: True, a[0])
        if name in ("isnan", "isinf"):
            return self.elementwise(lambda x: False, a[0])
        if name in ("degrees", "rad2deg"):
            return self.elementwise(lambda x: x * E.of(180.) / E.of(math.pi), a[0])
        if name in ("radians", "deg2rad"):
            return self.elementwise(lambda x: x * E.of(math.pi) / E.of(180.), a[0])
        if name in ("any", "all"):
            x = a[0]
            if isinstance(x, (list, tuple)):
                x = np.array(x, dtype=object)
            if not isinstance(x, np.ndarray):
                return x
            if kw or len(a) > 1:
                raise Unsupported("np.any over an axis")
            if x.dtype != object:
                return bool(getattr(np, name)(x))
            r = Cond(BDD.F if name == "any" else BDD.T)
            for v in x.flat:
                c = cond(v) if not isinstance(v, E) else Cond(BDD.Not(terms.eq0(v.p)))
                r = r | c if name == "any" else r & c
            return r.b is BDD.T if r.b in (BDD.T, BDD.F) else r
        if name == "mean":
            x = arr(a[0])
            ax = kw.get("axis", a[1] if len(a) > 1 else None)
            s = x.sum(axis=ax)
            n = x.size if ax is None else x.shape[ax] if not isinstance(ax, tuple) else int(np.prod([x.shape[k] for k in ax]))
            return s / E(P(n))
        if name in ("min", "max", "amin", "amax"):
            if kw or len(a) > 1:
                raise Unsupported("np.min over an axis")
            return (self.b_min if "min" in name else self.b_max)(list(arr(a[0]).flat))
        if name == "where" and len(a) == 3:
            c, x, y = np.broadcast_arrays(a[0] if isinstance(a[0], np.ndarray) else arr_cond(a[0]), arr(a[1]), arr(a[2]))
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = E(terms.ite(cond(c[i]).b, E.of(x[i]).p, E.of(y[i]).p))
            return out
        if name in ("divide", "true_divide"):
            return arr(a[0]) / arr(a[1])
        if name == "ndindex":
            return [tuple(i) for i in np.ndindex(*a)]
        if name in ("errstate",):
            raise Unsupported("errstate")
        if name == "float64":
            return E.of(a[0])
        if name in NP_DIRECT:
            out = kw.pop("out", None)
            a = [arr(x) if isinstance(x, (E, list, tuple)) and name in ("cross", "outer", "dot", "matmul", "add", "subtract", "multiply", "square") else x for x in a]
            r = getattr(np, name)(*a, **kw)
            if out is not None:
                out[...] = r
                return out
            return r
        raise Unsupported("np." + name)

    def linalg(self, name, a, kw):
        if name == "norm":
            x = arr(a[0])
            ax = kw.get("axis")
            return self.elementwise(E.sqrt, (x * x).sum(axis=ax) if ax is not None else (x * x).sum())
        if name in ("solve", "inv"):
            A = arr(a[0])
            n = A.shape[-1]
            if n > 3:
                raise Unsupported("linear system")
            if name == "inv":
                B = np.broadcast_to(arr(np.eye(n)), A.shape)
            else:
                B = arr(a[1])
                if B.ndim == 1:
                    raise Unsupported("solve of a vector")
                sh = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
                A, B = np.broadcast_to(A, sh + A.shape[-2:]), np.broadcast_to(B, sh + B.shape[-2:])
            out = np.empty(B.shape, dtype=object)
            for i in np.ndindex(A.shape[:-2]):
                out[i] = np.matmul(inverse(A[i]), B[i])
            return out
        if name == "det":
            return det(arr(a[0]))
        raise Unsupported("np.linalg." + name)

    def nps(self, name, a, kw):
        kw = dict(kw)
        out = kw.pop("out", None)

        def fin(r):
            if out is None:
                return r
            self.setitem(out, Ellipsis, r)
            return out
        if name == "dummy":
            x = arr(a[0]) if not isinstance(a[0], np.ndarray) else a[0]
            axes = list(a[1:]) + ([kw["axis"]] if "axis" in kw else [])
            for ax in axes:
                x = np.expand_dims(x, ax) if -x.ndim - 1 <= ax <= x.ndim else self._dummy_far(x, ax)
            return x
        if name in ("mag", "norm2"):
            x = arr(a[0])
            n2 = (x * x).sum(axis=-1)
            return fin(self.elementwise(E.sqrt, n2) if name == "mag" else n2)
        if name == "inner":
            return fin((arr(a[0]) * arr(a[1])).sum(axis=-1))
        if name == "outer":
            return fin(arr(a[0])[..., :, None] * arr(a[1])[..., None, :])
        if name in ("matmult", "matmult2"):
            r = arr(a[-1])
            for x in reversed(a[:-1]):
                x = arr(x)
                if r.ndim == 1:
                    r = r[:, None]
                if x.ndim == 1:
                    x = x[None, :]
                r = np.matmul(x, r)
            return fin(r)
        if name == "transpose":
            x = arr(a[0]) if not isinstance(a[0], np.ndarray) else a[0]
            return np.swapaxes(x if x.ndim > 1 else x[None, :], -1, -2)
        if name == "xchg":
            return np.swapaxes(a[0], a[1], a[2])
        if name == "mv":
            return np.moveaxis(a[0], a[1], a[2])
        if name in ("glue", "cat"):
            xs = [arr(x) if not isinstance(x, np.ndarray) else x for x in a]
            if name == "cat":
                sh = np.broadcast_shapes(*[x.shape for x in xs])
                return np.stack([np.broadcast_to(x, sh) for x in xs], axis=0)
            ax = kw.get("axis")
            n = max([x.ndim for x in xs] + [-ax])
            xs = [x.reshape((1,) * (n - x.ndim) + x.shape) for x in xs if x.size]
            sh = np.broadcast_shapes(*[x.shape[:n + ax] + (1,) + x.shape[n + ax + 1:] for x in xs])
            xs = [np.broadcast_to(x, sh[:n + ax] + (x.shape[n + ax],) + sh[n + ax + 1:]) for x in xs]
            return np.concatenate(xs, axis=ax)
        if name == "clump":
            x, n = a[0], kw.get("n")
            if n < 0:
                n = -n
                return x.reshape(x.shape[:x.ndim - n] + (-1,)) if n > 1 else x
            return x.reshape((-1,) + x.shape[n:]) if n > 1 else x
        if name == "trace":
            return fin(np.trace(arr(a[0]), axis1=-2, axis2=-1))
        if name == "atleast_dims":
            x = a[0]
            n = -a[1]
            return x.reshape((1,) * max(0, n - x.ndim) + x.shape)
        raise Unsupported("nps." + name)

    def _dummy_far(self, x, ax):
        raise Unsupported("dummy")


class BoundMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ExcType:
    pass


class Obj:
    """An opaque object given by the caller"""

    def attr(self, interp, a):
        raise Unsupported("attribute " + a)


def arr_cond(c):
    o = np.empty((), dtype=object)
    o[()] = c
    return o


def det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    s = E(P(0))
    for j in range(n):
        m = np.delete(np.delete(A, 0, 0), j, 1)
        s = s + A[0, j] * det(m) * (1 if j % 2 == 0 else -1)
    return s


def inverse(A):
    n = A.shape[0]
    d = det(A)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(A, j, 0), i, 1)
            out[i, j] = (det(m) if n > 1 else E(P(1))) * (1 if (i + j) % 2 == 0 else -1) / d
    return out


def paths(run, maxpaths=64):
    """Evaluate on every path: run(interp) with successive decision vectors.  Yields (interp, result or Raised)"""
    work = [[]]
    n = 0
    while work:
        d = work.pop()
        n += 1
        if n > maxpaths:
            raise Unsupported("too many paths")
        it, res = run(d)
        yield it, res
        for k in range(len(d), len(it.taken)):
            work.append(it.taken[:k] + [not it.taken[k]])


class LeafInterp(MPInterp):
    """Interprets each opaque function as a fixed smooth function of all its arguments"""

    def atom(self, a):
        v = self.vals.get(a)
        if v is not None:
            return v
        k = terms.atom_key(a)
        if k[0] == "fn" and isinstance(k[1], str) and k[1].startswith("leaf:"):
            h = int(hashlib.sha1(k[1].encode()).hexdigest()[:8], 16)
            s = self.mp.mpf(h % 997) / 997 + self.mp.mpf("0.5")
            for j, x in enumerate(k[2:]):
                c = ((h >> (j % 13)) % 89 + 7 * j + 3) / self.mp.mpf(50)
                s += self.mp.sin(c * self.ev(x) + j) / (j + 2)
            self.vals[a] = s
            return s
        return MPInterp.atom(self, a)
