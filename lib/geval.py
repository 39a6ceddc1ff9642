"""Global value numbering over gated SSA.

One pass over the (acyclic, after full unrolling) control-flow graph of an LLVM
function.  Every SSA value gets a term; joins become gates on the branch
conditions; memory is a map from (object, byte offset term) to terms."""
from fractions import Fraction

import ir
from front import AnalysisError
import terms
from terms import (BDD, ONE, P, Poly, ZERO, atom_poly, eq0, fn, fnum, gather, inv, ite, maybe_let, small_product, nonneg, pos,
                   pos_int, sqrt, var)


class Ptr:
    """base: hashable object id; off: Poly (bytes)"""
    __slots__ = ("base", "off")

    def __init__(self, base, off=ZERO):
        self.base, self.off = base, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return "&%s+%r" % (self.base, self.off)


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PtrIte) and self.c is o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return "(? %r : %r)" % (self.a, self.b)


NULL = Ptr("null")


def expand(p, limit=64):
    """A pointer whose offset gates between constants, as gated pointers with constant offsets"""
    if not isinstance(p, Ptr) or p.off.const() is not None:
        return p
    n = [0]

    def go(o):
        if o.const() is not None:
            n[0] += 1
            return Ptr(p.base, o) if n[0] <= limit else None
        for m in o.t:
            for a, e in m:
                k = terms.atom_key(a)
                if k[0] == "ite":
                    x = go(terms.subst(o, {a: k[2]}))
                    y = x and go(terms.subst(o, {a: k[3]}))
                    return PtrIte(k[1], x, y) if x and y else None
        return None
    return go(p.off) or p


def leaves(p, c=None):
    """[(condition, Ptr)] of gated pointers"""
    c = BDD.T if c is None else c
    if isinstance(p, PtrIte):
        return leaves(aspointer(p.a), BDD.And(c, p.c)) + leaves(aspointer(p.b), BDD.And(c, BDD.Not(p.c)))
    p = expand(p)
    if isinstance(p, PtrIte):
        return leaves(p, c)
    return [] if c is BDD.F else [(c, p)]


class Agg:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class UndefV:
    def __repr__(self):
        return "undef"


UNDEF = UndefV()


def merge(c, a, b):
    """Gate two abstract values"""
    if a is b or c is BDD.T:
        return a
    if c is BDD.F:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, Node_) and isinstance(b, Node_):
        return BDD.ite(c, a, b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return Agg([merge(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
        a = aspointer(a)
        b = aspointer(b)
        if a == b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
            return Ptr(a.base, ite(c, a.off, b.off))
        return PtrIte(c, a, b)
    raise AnalysisError("cannot merge %r and %r" % (a, b))


from terms import Node as Node_


def aspointer(v):
    if isinstance(v, (Ptr, PtrIte)):
        return v
    if isinstance(v, Poly):
        if v.is_zero():
            return NULL
        return Ptr(("val", v))
    raise AnalysisError("not a pointer: %r" % (v,))


def aspoly(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, Node_):
        return ite(v, ONE, ZERO)
    if isinstance(v, Ptr):
        if v.base == "null":
            return v.off
        return var("ptr:", str(v.base)) + v.off
    if isinstance(v, PtrIte):
        return ite(v.c, aspoly(v.a), aspoly(v.b))
    if v is UNDEF:
        return var("undef")
    raise AnalysisError("not a number: %r" % (v,))


def asbool(v):
    if isinstance(v, Node_):
        return v
    return BDD.Not(eq0(aspoly(v)))


class Access:
    __slots__ = ("kind", "base", "off", "size", "inst", "cond", "value")

    def __init__(self, kind, base, off, size, inst, cond, value=None):
        self.kind, self.base, self.off, self.size, self.inst, self.cond = kind, base, off, size, inst, cond
        self.value = value


LIBM = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "floor", "ceil", "round", "tanh",
        "sinh", "cosh", "cbrt", "pow", "fmod"}
NORETURN = {"__assert_fail", "abort", "exit", "_exit", "__cxa_throw", "_ZSt9terminatev"}


class Eval:
    def __init__(self, fn_, argvals, resolve_global=None, init_load=None, trace=False, opaque_calls=None,
                 lets=True, nonnull=True):
        """argvals: list of abstract values, one per argument.
        init_load(base, off, type) -> value for memory never stored to."""
        self.fn = fn_
        self.args = argvals
        self.val = {}
        self.accesses = []
        self.calls = []
        self.init_load = init_load
        self.opaque_calls = opaque_calls or {}
        self.lets = lets
        self.ret = None
        self.retmem = None
        self.warn = []
        self.loopheads = []
        self._run()

    # ---- operands
    def get(self, v):
        if isinstance(v, ir.Inst):
            return self.val[v]
        if isinstance(v, ir.Arg):
            return self.args[v.index]
        if isinstance(v, ir.Const):
            k = v.kind
            if k == "int":
                if v.type.bits == 1:
                    return BDD.T if v.v else BDD.F
                return P(v.v)
            if k == "fp":
                if v.v != v.v:
                    return atom_poly(("fn", "nan", ONE))
                if v.v in (float("inf"), float("-inf")):
                    r = atom_poly(("fn", "inf", ONE))
                    return r if v.v > 0 else -r
                return P(fnum(v.v))
            if k == "null":
                return NULL
            if k == "undef":
                return UNDEF
            if k == "zero":
                return self.zero(v.type)
            if k == "expr":
                if v.op == "gep":
                    I = _FakeGep(v)
                    return self.gep(I)
                if v.op in ("bitcast", "addrspacecast"):
                    return self.get(v.ops[0])
                if v.op in ("ptrtoint", "inttoptr"):
                    return self.get(v.ops[0])
                return var("constexpr", repr(v))
            if k == "agg":
                return Agg([self.get(x) for x in v.v])
            return UNDEF
        if isinstance(v, ir.Global):
            return Ptr(("global", v.name))
        if isinstance(v, ir.Function):
            return Ptr(("func", v.name))
        raise AnalysisError("operand %r" % (v,))

    def zero(self, t):
        if t.kind == "struct":
            return Agg([self.zero(e) for e in t.elems])
        if t.kind in ("array", "vector"):
            return Agg([self.zero(t.elem)] * t.n)
        if t.kind == "ptr":
            return NULL
        if t.kind == "int" and t.bits == 1:
            return BDD.F
        return ZERO

    def gep(self, I):
        base, off, vs = ir.gep_parts(I)
        p = self.get(base)
        if p is UNDEF:
            return UNDEF
        o = P(off)
        for s, v in vs:
            o = o + aspoly(self.get(v)) * s
        return self.padd(aspointer(p), o)

    def padd(self, p, o):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.padd(p.a, o), self.padd(p.b, o))
        return Ptr(p.base, p.off + o)

    # ---- memory
    def load(self, mem, p, t, inst, cond):
        p = expand(p)
        if isinstance(p, PtrIte):
            a = self.load(mem, p.a, t, inst, BDD.And(cond, p.c))
            b = self.load(mem, p.b, t, inst, BDD.And(cond, BDD.Not(p.c)))
            return merge(p.c, a, b)
        if t.kind == "struct":
            return Agg([self.load(mem, Ptr(p.base, p.off + o), e, inst, cond) for e, o in zip(t.elems, t.offsets)])
        if t.kind in ("array", "vector"):
            return Agg([self.load(mem, Ptr(p.base, p.off + i * t.elem.size), t.elem, inst, cond) for i in range(t.n)])
        if inst is not None:
            self.accesses.append(Access("load", p.base, p.off, t.size, inst, cond))
        if p.base == "null":
            return self.typed(var("nullderef"), t)
        return self.peek(mem, p, t)

    def peek(self, mem, p, t):
        e = mem.get((p.base, p.off))
        if e is not None:
            v, sz = e
            if sz == t.size:
                return self.typed(v, t)
            if v is UNDEF:
                return UNDEF
            if isinstance(v, Poly) and v.const() is not None and v.const() == 0:
                return self.typed(ZERO, t)
            self.warn.append("mixed-size access at %s+%r" % (p.base, p.off))
            return self.typed(var("mixed", str(p.base), str(p.off), t.size), t)
        if isinstance(p.base, tuple) and p.base[0] == "alloca" and t.kind in ("double", "int") and p.off.const() is None:
            es = []
            for (bs, o), (v, sz) in mem.items():
                if bs == p.base and sz == t.size and isinstance(v, Poly) and o.const() is not None:
                    es.append((int(o.const()), v))
            if es:
                es.sort(key=lambda x: x[0])
                return self.typed(gather(es, p.off), t)
        return self.initial(p, t)

    def initial(self, p, t):
        if self.init_load is not None:
            r = self.init_load(p.base, p.off, t)
            if r is not None:
                return r
        b = p.base
        if isinstance(b, tuple) and b[0] == "alloca":
            return UNDEF
        if isinstance(b, tuple) and b[0] == "global":
            G = self.fn.module.globals.get(b[1])
            if G is not None and G.const and G.init is not None:
                c = p.off.const()
                if c is not None:
                    r = _const_at(G.init, int(c), t)
                    if r is not None:
                        return self.get(r)
        if t.kind == "ptr":
            return Ptr(("*", b, p.off))
        return self.typed(var("in:", b, p.off, t.size), t)

    def typed(self, v, t):
        if t.kind == "ptr":
            if v is UNDEF:
                return UNDEF
            return aspointer(v)
        if t.kind == "int" and t.bits == 1:
            return asbool(v)
        if isinstance(v, (Ptr, PtrIte, Node_)):
            return aspoly(v)
        return v

    def store(self, mem, p, v, t, inst, cond):
        p = expand(p)
        if isinstance(p, PtrIte):
            for c, q in leaves(p):
                if q.base == "null":
                    self.accesses.append(Access("store", "null", q.off, t.size, inst, BDD.And(cond, c)))
                    continue
                old = self.peek(mem, q, t)
                self.store(mem, q, merge(c, v, old), t, inst, BDD.And(cond, c))
            return
        if isinstance(v, Agg):
            if t.kind == "struct":
                for x, e, o in zip(v.e, t.elems, t.offsets):
                    self.store(mem, Ptr(p.base, p.off + o), x, e, inst, cond)
            else:
                for i, x in enumerate(v.e):
                    self.store(mem, Ptr(p.base, p.off + i * t.elem.size), x, t.elem, inst, cond)
            return
        self.accesses.append(Access("store", p.base, p.off, t.size, inst, cond, v))
        if isinstance(p.base, tuple) and p.base[0] == "alloca" and p.off.const() is None:
            raise AnalysisError("store to a local array at an unresolved offset %s (%s)" % (p.off, inst.where() if inst is not None else ""))
        mem[(p.base, p.off)] = (v, t.size)

    def memcpy(self, mem, d, s, n, inst, cond):
        c = n.const()
        if c is None:
            self.warn.append("memcpy of variable size")
            self.calls.append(("memcpy", [d, s, n], cond, inst))
            return
        c = int(c)
        if isinstance(d, PtrIte) or isinstance(s, PtrIte):
            self.warn.append("memcpy through a gated pointer")
            return
        # copy what is known, and the rest as 8-byte (then 4, 1) words
        k = 0
        known = {}
        for (b, o), (v, sz) in mem.items():
            if b == s.base:
                dlt = (o - s.off).const()
                if dlt is not None and 0 <= dlt < c:
                    known[int(dlt)] = (v, sz)
        new = {}
        while k < c:
            if k in known:
                v, sz = known[k]
                new[k] = (v, sz)
                self.accesses.append(Access("load", s.base, s.off + k, sz, inst, cond))
                k += sz
                continue
            nxt = min([x for x in known if x > k], default=c)
            sz = 8 if nxt - k >= 8 else (4 if nxt - k >= 4 else 1)
            t = _T8 if sz == 8 else (_T4 if sz == 4 else _T1)
            v = self.initial(Ptr(s.base, s.off + k), t)
            self.accesses.append(Access("load", s.base, s.off + k, sz, inst, cond))
            new[k] = (v, sz)
            k += sz
        for k, (v, sz) in new.items():
            key = (d.base, d.off + k)
            self.accesses.append(Access("store", d.base, d.off + k, sz, inst, cond, v))
            mem[key] = (v, sz)

    def memset(self, mem, d, n, inst, cond, val):
        c = n.const()
        if c is None:
            self.calls.append(("memset", [d, val, n], cond, inst))
            self.warn.append("memset of variable size")
            return
        if isinstance(d, PtrIte):
            self.warn.append("memset through a gated pointer")
            return
        c = int(c)
        z = val.const() == 0
        k = 0
        while k < c:
            sz = 8 if c - k >= 8 else (4 if c - k >= 4 else 1)
            v = ZERO if z else var("memset", str(val), sz)
            self.accesses.append(Access("store", d.base, d.off + k, sz, inst, cond, v))
            mem[(d.base, d.off + k)] = (v, sz)
            k += sz

    # ---- driver
    def _run(self):
        F = self.fn
        # topological order; back edges are not allowed
        order = []
        state = {}
        st = [(F.blocks[0], iter(F.blocks[0].succs))]
        state[F.blocks[0]] = 1
        while st:
            b, it = st[-1]
            for s in it:
                c = state.get(s)
                if c == 1:
                    raise AnalysisError("a loop remains in %s (%s)" % (F.name, s.insts[0].where()))
                if c is None:
                    state[s] = 1
                    st.append((s, iter(s.succs)))
                    break
            else:
                state[b] = 2
                order.append(b)
                st.pop()
        order.reverse()
        self.reach = {F.blocks[0]: BDD.T}
        memin = {F.blocks[0]: {}}
        edges = {}        # (pred,succ) -> cond
        memout = {}
        rets = []
        npending = {}
        for b in order:
            if b is F.blocks[0]:
                R, mem = BDD.T, {}
                inc = []
            else:
                inc = []
                seen = set()
                for p in b.preds:
                    if p in seen:
                        continue
                    seen.add(p)
                    c = edges.get((p, b))
                    if c is not None and c is not BDD.F:
                        inc.append((p, c))
                R = BDD.F
                for _, c in inc:
                    R = BDD.Or(R, c)
                if R is BDD.F:
                    continue
                mem = self._merge_mem([(BDD.constrain(c, R), memout[p]) for p, c in inc])
            self.reach[b] = R
            self.cur = (b, R, inc)
            dead = self._block(b, R, inc, mem)
            t = b.insts[-1]
            memout[b] = mem
            if dead:
                continue
            if t.op == "br":
                if len(t.targets) == 1:
                    self._edge(edges, b, t.targets[0], R)
                else:
                    c = asbool(self.get(t.ops[0]))
                    self._edge(edges, b, t.targets[0], BDD.And(R, c))
                    self._edge(edges, b, t.targets[1], BDD.And(R, BDD.Not(c)))
            elif t.op == "switch":
                x = aspoly(self.get(t.ops[0]))
                rest = R
                for cv, tb in t.cases:
                    c = eq0(x - self.get(cv))
                    self._edge(edges, b, tb, BDD.And(rest, c))
                    rest = BDD.And(rest, BDD.Not(c))
                self._edge(edges, b, t.targets[0], rest)
            elif t.op == "ret":
                rets.append((R, self.get(t.ops[0]) if t.ops else None, mem))
            elif t.op == "invoke":
                self._edge(edges, b, t.targets[0], R)
            elif t.op in ("unreachable", "resume"):
                pass
            else:
                raise AnalysisError("terminator " + t.op)
        self.edges = edges
        if not rets:
            self.ret, self.retmem = None, {}
            return
        tot = BDD.F
        for R, _, _ in rets:
            tot = BDD.Or(tot, R)
        self.retmem = self._merge_mem([(BDD.constrain(R, tot), m) for R, _, m in rets])
        v = rets[-1][1]
        for R, x, _ in rets[:-1]:
            if v is not None:
                v = merge(BDD.constrain(R, tot), x, v)
        self.ret = v
        self.retcond = tot

    def _edge(self, edges, a, b, c):
        o = edges.get((a, b))
        edges[(a, b)] = c if o is None else BDD.Or(o, c)

    def _merge_mem(self, ms):
        if len(ms) == 1:
            return dict(ms[0][1])
        keys = {}
        for _, m in ms:
            for k, e in m.items():
                if k in keys:
                    if keys[k] != e[1]:
                        keys[k] = min(keys[k], e[1])
                else:
                    keys[k] = e[1]
        out = {}
        for k, sz in keys.items():
            v = None
            same = True
            first = ms[0][1].get(k)
            if all(m.get(k) is first for _, m in ms[1:]):
                out[k] = first
                continue
            for c, m in reversed(ms):
                e = m.get(k)
                if e is None or e[1] != sz:
                    like = next(mm[k][0] for _, mm in ms if k in mm)
                    x = self._initial_like(k, sz, like)
                else:
                    x = e[0]
                v = x if v is None else merge(c, x, v)
            out[k] = (v, sz)
        return out

    def _initial_like(self, k, sz, like):
        t = {8: _T8, 4: _T4, 2: _T2, 1: _T1}[sz]
        if isinstance(like, (Ptr, PtrIte)):
            t = _TP
        return self.initial(Ptr(k[0], k[1]), t)

    def _block(self, b, R, inc, mem):
        phis = []
        for I in b.insts:
            if I.op == "phi":
                v = None
                imap = {}
                for x, p in I.incoming:
                    imap[p] = x
                for p, c in reversed(inc):
                    x = self.get(imap[p])
                    v = x if v is None else merge(BDD.constrain(c, R), x, v)
                if v is None:
                    v = UNDEF
                phis.append((I, v))
                continue
            if phis:
                for J, v in phis:
                    self.val[J] = v
                phis = []
            if I.op in ("br", "switch", "ret", "unreachable", "resume"):
                break
            r = self._inst(I, R, mem)
            if r == "noreturn":
                return True
            if isinstance(r, Poly) and self.lets and I.type.kind in ("double", "float"):
                r = maybe_let(r)
            self.val[I] = r
        for J, v in phis:
            self.val[J] = v
        return False

    def _vec(self, I, f, *vs):
        if any(isinstance(v, Agg) for v in vs):
            n = len(next(v for v in vs if isinstance(v, Agg)).e)
            return Agg([f(*[v.e[i] if isinstance(v, Agg) else v for v in vs]) for i in range(n)])
        return f(*vs)

    def _inst(self, I, R, mem):
        op = I.op
        g = self.get
        if op in ("fadd", "fsub", "fmul", "fdiv", "add", "sub", "mul"):
            a, b = g(I.ops[0]), g(I.ops[1])

            def f(a, b):
                if a is UNDEF or b is UNDEF:
                    return UNDEF
                if op == "sub" and isinstance(a, (Ptr)) and isinstance(b, Ptr) and a.base == b.base:
                    return a.off - b.off
                if op == "add" and isinstance(a, Ptr) and isinstance(b, Poly):
                    return self.padd(a, b)
                a, b = aspoly(a), aspoly(b)
                if op in ("fadd", "add"):
                    return a + b
                if op in ("fsub", "sub"):
                    return a - b
                if op == "fmul":
                    return small_product(a, b)
                if op == "mul":
                    return a * b
                return small_product(a, inv(b))
            return self._vec(I, f, a, b)
        if op == "fneg":
            return self._vec(I, lambda a: UNDEF if a is UNDEF else -aspoly(a), g(I.ops[0]))
        if op in ("zext", "sext", "trunc", "fpext", "fptrunc", "bitcast", "freeze", "sitofp", "uitofp",
                  "ptrtoint", "inttoptr", "addrspacecast"):
            a = g(I.ops[0])
            if a is UNDEF:
                return UNDEF
            if op == "trunc":
                if I.type.kind == "int" and I.type.bits == 1:
                    if isinstance(a, Node_):
                        return a
                    a = aspoly(a)
                    c = a.const()
                    if c is not None:
                        return BDD.T if int(c) & 1 else BDD.F
                    return self.boolish(a)
                a = aspoly(a)
                c = a.const()
                if c is not None and I.type.kind == "int":
                    c = int(c) & ((1 << I.type.bits) - 1)
                    if c >> (I.type.bits - 1):
                        c -= 1 << I.type.bits
                    return P(c)
                return a
            if op == "sext" and isinstance(a, Node_):
                return ite(a, P(-1), ZERO)
            if op == "zext" and isinstance(a, Poly):
                c = a.const()
                if c is not None and c < 0:
                    return P(int(c) & ((1 << I.ops[0].type.bits) - 1))
            if op in ("zext", "sext", "sitofp", "uitofp"):
                return aspoly(a)
            if op == "bitcast":
                return a
            if op == "inttoptr":
                return aspointer(a)
            if op == "ptrtoint":
                return a
            if op in ("fptrunc",):
                return a
            return a
        if op in ("fptosi", "fptoui"):
            a = aspoly(g(I.ops[0]))
            c = a.const()
            if c is not None:
                return P(int(c))
            return fn("fptosi", a)
        if op in ("sdiv", "udiv"):
            a, b = aspoly(g(I.ops[0])), aspoly(g(I.ops[1]))
            ca, cb = a.const(), b.const()
            if ca is not None and cb:
                q = abs(int(ca)) // abs(int(cb))
                return P(q if (ca >= 0) == (cb >= 0) else -q)
            if cb:
                if all(c % cb == 0 for c in a.t.values()):
                    return a * P(Fraction(1, int(cb)))
            return fn("idiv", a, b)
        if op in ("srem", "urem"):
            a, b = aspoly(g(I.ops[0])), aspoly(g(I.ops[1]))
            ca, cb = a.const(), b.const()
            if ca is not None and cb:
                import math
                return P(int(math.fmod(int(ca), int(cb))))
            return fn("irem", a, b)
        if op in ("and", "or", "xor"):
            a, b = g(I.ops[0]), g(I.ops[1])
            if I.type.kind == "int" and I.type.bits == 1:
                if a is UNDEF or b is UNDEF:
                    return a if b is UNDEF else b
                a, b = asbool(a), asbool(b)
                return {"and": BDD.And, "or": BDD.Or, "xor": BDD.Xor}[op](a, b)
            if isinstance(a, Agg) or isinstance(b, Agg):
                return Agg([UNDEF] * len((a if isinstance(a, Agg) else b).e))
            a, b = aspoly(a), aspoly(b)
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                ca, cb = int(ca), int(cb)
                return P(ca & cb if op == "and" else ca | cb if op == "or" else ca ^ cb)
            if op == "xor" and cb == -1:
                return -a - ONE
            if op == "or" and cb == 0:
                return a
            if op == "and" and cb == 0:
                return ZERO
            if op == "and" and cb == -1:
                return a
            if op == "or" and self._disjoint(a, b):
                return a + b
            if b.key < a.key:
                a, b = b, a
            return fn("i" + op, a, b)
        if op in ("shl", "lshr", "ashr"):
            a, b = aspoly(g(I.ops[0])), aspoly(g(I.ops[1]))
            ca, cb = a.const(), b.const()
            if cb is not None:
                if op == "shl":
                    return a * P(1 << int(cb))
                if ca is not None:
                    if op == "lshr" and ca < 0:
                        ca = int(ca) & ((1 << I.type.bits) - 1)
                    return P(int(ca) >> int(cb))
                k = 1 << int(cb)
                if all(c % k == 0 for c in a.t.values()):
                    return a * P(Fraction(1, k))
            return fn(op, a, b)
        if op == "icmp":
            return self._vec(I, lambda a, b: self.icmp(I.pred, a, b), g(I.ops[0]), g(I.ops[1]))
        if op == "fcmp":
            return self._vec(I, lambda a, b: self.fcmp(I.pred, a, b), g(I.ops[0]), g(I.ops[1]))
        if op == "select":
            c = g(I.ops[0])
            if isinstance(c, Agg):
                a, b = g(I.ops[1]), g(I.ops[2])
                return Agg([merge(asbool(x), y, z) for x, y, z in zip(c.e, a.e, b.e)])
            return merge(asbool(c), g(I.ops[1]), g(I.ops[2]))
        if op == "alloca":
            return Ptr(("alloca", I.name or I.id, I.id))
        if op == "gep":
            return self.gep(I)
        if op == "load":
            p = g(I.ops[0])
            if p is UNDEF:
                return UNDEF
            return self.load(mem, aspointer(p), I.type, I, R)
        if op == "store":
            v = g(I.ops[0])
            p = g(I.ops[1])
            if p is UNDEF:
                self.warn.append("store through undef")
                return None
            self.store(mem, aspointer(p), v, I.ops[0].type, I, R)
            return None
        if op == "extractvalue":
            v = g(I.ops[0])
            for k in I.indices:
                v = v.e[k] if isinstance(v, Agg) else UNDEF
            return v
        if op == "insertvalue":
            v = g(I.ops[0])
            if v is UNDEF:
                v = self.undefagg(I.type)
            return self.insval(v, I.indices, g(I.ops[1]))
        if op == "extractelement":
            v = g(I.ops[0])
            c = g(I.ops[1]).const()
            return v.e[int(c)] if isinstance(v, Agg) and c is not None else UNDEF
        if op == "insertelement":
            v = g(I.ops[0])
            if v is UNDEF:
                v = Agg([UNDEF] * I.type.n)
            e = list(v.e)
            e[int(g(I.ops[2]).const())] = g(I.ops[1])
            return Agg(e)
        if op in ("call", "invoke"):
            return self._call(I, R, mem)
        if op == "landingpad":
            return UNDEF
        raise AnalysisError("instruction %s in %s" % (op, self.fn.name))

    def boolish(self, a):
        return BDD.Not(eq0(a))

    def _disjoint(self, a, b):
        # (x << k) | c with 0 <= c < 2^k
        for x, y in ((a, b), (b, a)):
            c = y.const()
            if c is not None and c >= 0 and x.t and all(int(v) == v and int(v) % (1 << max(int(c).bit_length(), 1)) == 0 for v in x.t.values()):
                return True
        return False

    def undefagg(self, t):
        if t.kind == "struct":
            return Agg([self.undefagg(e) for e in t.elems])
        if t.kind in ("array", "vector"):
            return Agg([self.undefagg(t.elem) for _ in range(t.n)])
        return UNDEF

    def insval(self, v, idx, x):
        e = list(v.e)
        if len(idx) == 1:
            e[idx[0]] = x
        else:
            e[idx[0]] = self.insval(e[idx[0]], idx[1:], x)
        return Agg(e)

    def icmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return BDD.var(("undefcmp",))
        if isinstance(a, Node_) or isinstance(b, Node_):
            a_, b_ = asbool(a), asbool(b)
            x = BDD.Xor(a_, b_)
            if pred == "ne":
                return x
            if pred == "eq":
                return BDD.Not(x)
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            a, b = aspointer(a), aspointer(b)
            if isinstance(a, PtrIte):
                return BDD.ite(a.c, self.icmp(pred, a.a, b), self.icmp(pred, a.b, b))
            if isinstance(b, PtrIte):
                return BDD.ite(b.c, self.icmp(pred, a, b.a), self.icmp(pred, a, b.b))
            if pred in ("eq", "ne"):
                r = self.ptreq(a, b)
                return BDD.Not(r) if pred == "ne" else r
            if a.base == b.base:
                return self.icmp(pred, a.off, b.off)
            return BDD.var(("ptrcmp", pred, str(a), str(b)))
        a, b = aspoly(a), aspoly(b)
        d = a - b
        if pred == "eq":
            return eq0(d)
        if pred == "ne":
            return BDD.Not(eq0(d))
        if pred in ("sgt", "ugt"):
            if pred == "ugt" and b.is_zero():
                return BDD.Not(eq0(a))
            return pos_int(d)
        if pred in ("slt", "ult"):
            if pred == "ult" and b.const() == 1:
                return eq0(a)
            return pos_int(-d)
        if pred in ("sge", "uge"):
            return BDD.Not(pos_int(-d))
        return BDD.Not(pos_int(d))

    def ptreq(self, a, b):
        if a.base == b.base:
            return eq0(a.off - b.off)
        for x, y in ((a, b), (b, a)):
            if x.base == "null":
                k = y.base
                if isinstance(k, tuple) and k[0] in ("alloca", "global", "func", "arg"):
                    return BDD.F
                return BDD.var(("isnull", k))
        ka, kb = a.base, b.base
        if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] in ("alloca", "global", "func", "arg") and kb[0] in ("alloca", "global", "func", "arg"):
            return BDD.F
        return BDD.var(("ptreq",) + tuple(sorted((str(a), str(b)))))

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return BDD.var(("undefcmp",))
        a, b = aspoly(a), aspoly(b)
        d = a - b
        p = pred
        if p in ("ord",):
            return BDD.T
        if p == "uno":
            return BDD.F
        if p in ("oeq", "ueq"):
            return eq0(d)
        if p in ("one", "une"):
            return BDD.Not(eq0(d))
        if p in ("ogt", "ugt"):
            return pos(d)
        if p in ("olt", "ult"):
            return pos(-d)
        if p in ("oge", "uge"):
            return nonneg(d)
        if p in ("ole", "ule"):
            return nonneg(-d)
        return BDD.T if p == "true" else BDD.F

    def _call(self, I, R, mem):
        n = ir.callee_name(I)
        g = self.get
        if n is None:
            self.calls.append((None, [g(o) for o in I.ops], R, I))
            return self._opaque(I, "indirect")
        if n.startswith("llvm."):
            if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental", "llvm.stacksave",
                             "llvm.stackrestore", "llvm.prefetch", "llvm.va_", "llvm.donothing")):
                return UNDEF
            if n.startswith(("llvm.memcpy", "llvm.memmove")):
                self.memcpy(mem, aspointer(g(I.ops[0])), aspointer(g(I.ops[1])), aspoly(g(I.ops[2])), I, R)
                return None
            if n.startswith("llvm.memset"):
                self.memset(mem, aspointer(g(I.ops[0])), aspoly(g(I.ops[2])), I, R, aspoly(g(I.ops[1])))
                return None
            base = n.split(".")[1]
            a = [g(o) for o in I.ops]
            if base in ("smax", "smin", "umax", "umin"):
                x, y = aspoly(a[0]), aspoly(a[1])
                c = pos_int(x - y)
                return ite(c, x, y) if base.endswith("max") else ite(c, y, x)
            if base == "abs":
                x = aspoly(a[0])
                return ite(pos_int(-x), -x, x)
            if base in ("umul", "smul", "uadd", "sadd", "usub", "ssub"):
                x, y = aspoly(a[0]), aspoly(a[1])
                r = x * y if "mul" in base else x + y if "add" in base else x - y
                return Agg([r, BDD.F])
            if base == "usub" or base == "uadd":
                return var("sat", n)
            if base in ("is",):
                return BDD.F if "fpclass" in n else UNDEF
            if base == "trap":
                return "noreturn"
            if base == "objectsize":
                return var("objectsize")
            if base == "expect":
                return a[0]
            return self._vec(I, lambda *aa: self.math(base, [aspoly(x) if x is not UNDEF else var("undef") for x in aa]), *a)
        if n in NORETURN:
            return "noreturn"
        if n in ("memcpy", "memmove"):
            self.memcpy(mem, aspointer(g(I.ops[0])), aspointer(g(I.ops[1])), aspoly(g(I.ops[2])), I, R)
            return g(I.ops[0])
        if n == "memset":
            self.memset(mem, aspointer(g(I.ops[0])), aspoly(g(I.ops[2])), I, R, aspoly(g(I.ops[1])))
            return g(I.ops[0])
        if n == "sincos":
            x = aspoly(g(I.ops[0]))
            self.store(mem, aspointer(g(I.ops[1])), fn("sin", x), _T8, I, R)
            self.store(mem, aspointer(g(I.ops[2])), fn("cos", x), _T8, I, R)
            return None
        if n in self.opaque_calls:
            return self.opaque_calls[n](self, I, [g(o) for o in I.ops], R, mem)
        m = n
        if m in LIBM or m in ("sqrt", "fabs", "fmax", "fmin"):
            return self.math(m, [aspoly(g(o)) for o in I.ops])
        if m.endswith("f") and m[:-1] in LIBM | {"sqrt", "fabs"}:
            return self.math(m[:-1], [aspoly(g(o)) for o in I.ops])
        self.calls.append((n, [g(o) for o in I.ops], R, I))
        return self._opaque(I, n)

    def _opaque(self, I, n):
        t = I.type
        if t.kind == "void":
            return None
        if t.kind == "ptr":
            return Ptr(("call", n, I.id))
        if t.kind == "int" and t.bits == 1:
            return BDD.var(("call", n, I.id))
        if t.kind == "struct":
            return self.undefagg(t)
        return var("call", n, I.id)

    def math(self, n, a):
        if n == "sqrt":
            return sqrt(a[0])
        if n == "fabs":
            x = a[0]
            c = x.const()
            if c is not None:
                return P(abs(c))
            return ite(pos(x), x, -x)
        if n in ("fmuladd", "fma"):
            return small_product(a[0], a[1]) + a[2]
        if n in ("maxnum", "maximum", "fmax"):
            return ite(pos(a[0] - a[1]), a[0], a[1])
        if n in ("minnum", "minimum", "fmin"):
            return ite(pos(a[0] - a[1]), a[1], a[0])
        if n == "copysign":
            return fn("copysign", a[0], a[1])
        if n in ("pow", "powi"):
            c = a[1].const()
            if c is not None and c == int(c) and 0 <= c < 20:
                return a[0] ** int(c)
            return fn("pow", a[0], a[1])
        return fn(n, *a)


class _FakeGep:
    def __init__(self, c):
        self.ops, self.srctype = c.ops, c.srctype


class _Ty:
    def __init__(self, kind, size, bits=0):
        self.kind, self.size, self.bits = kind, size, bits


_T8 = _Ty("double", 8)
_T4 = _Ty("int", 4, 32)
_T2 = _Ty("int", 2, 16)
_T1 = _Ty("int", 1, 8)
_TP = _Ty("ptr", 8)


def _const_at(c, off, t):
    """The scalar constant at a byte offset of a constant initialiser"""
    ct = c.type
    if isinstance(c, ir.Const) and c.kind == "zero":
        z = ir.Const("int" if t.kind == "int" else "fp" if t.kind in ("double", "float") else "null", t, 0)
        return z
    if ct.kind in ("array", "vector"):
        i, r = divmod(off, ct.elem.size)
        if i >= ct.n:
            return None
        if c.kind == "str":
            return ir.Const("int", t, c.v[i]) if t.size == 1 else None
        if c.kind != "agg":
            return None
        return _const_at(c.v[i], r, t)
    if ct.kind == "struct":
        if c.kind != "agg":
            return None
        for e, o, x in zip(ct.elems, ct.offsets, c.v):
            if o <= off < o + max(e.size, 1):
                return _const_at(x, off - o, t)
        return None
    if off == 0 and ct.size == t.size:
        return c
    return None
