"""Terms for value numbering: multivariate polynomials in hash-consed atoms.

An atom is an input, an uninterpreted function of terms, 1/p, sqrt(p), sin/cos,
an if-then-else gate, or a name for a large sub-term.  Equality of two terms is
decided by an algebraic normal form:  sin^2+cos^2=1, sqrt(p)^2=p, p*(1/p)=1."""
import math
from fractions import Fraction

# ---------------------------------------------------------------- atoms
_atoms = []          # id -> key
_atom_ids = {}       # key -> id


def atom(key):
    i = _atom_ids.get(key)
    if i is None:
        i = len(_atoms)
        _atoms.append(key)
        _atom_ids[key] = i
    return i


def atom_key(i):
    return _atoms[i]


def reset():
    _atoms.clear()
    _atom_ids.clear()
    _dcache.clear()
    _tables.clear()
    _table_ids.clear()
    BDD.reset()


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


_fcache = {}


def fnum(x):
    """A double as an exact number: the simple rational it rounds, if there is one."""
    r = _fcache.get(x)
    if r is None:
        f = Fraction(x).limit_denominator(1000000)
        if x != 0 and abs(float(f) - x) <= 4e-16 * abs(x):
            r = _norm(f)
        else:
            r = _norm(Fraction(x))
        _fcache[x] = r
    return r


class Budget(Exception):
    """A normal form grew too large"""


_budget = [None]


class Poly:
    __slots__ = ("t", "_key")

    def __init__(self, t):
        self.t = t
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        """The constant value, or None."""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        o = P(o)
        if len(self.t) < len(o.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = _norm(v)
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if len(o.t) == 1 and () in o.t:
            k = o.t[()]
            return Poly({m: _norm(c * k) for m, c in self.t.items()})
        if len(self.t) == 1 and () in self.t:
            return o * self
        if _budget[0] is not None:
            _budget[0] -= len(self.t) * len(o.t)
            if _budget[0] < 0:
                raise Budget()
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                c = c1 * c2
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v == 0:
                        del r[m]
                    else:
                        r[m] = _norm(v)
        p = Poly(r)
        return reduce_powers(p)
    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __repr__(self):
        return show(self)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, float):
        x = fnum(x)
    return Poly({(): x}) if x != 0 else ZERO


ZERO = Poly({})
ONE = Poly({(): 1})


def var(*key):
    return Poly({((atom(("var",) + key), 1),): 1})


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            r.append(x)
            i += 1
        elif x[0] > y[0]:
            r.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e:
                r.append((x[0], e))
            i += 1
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def reduce_powers(p):
    """sqrt(q)^2 -> q ; sin(x)^2 -> 1 - cos(x)^2"""
    todo = None
    for m in p.t:
        for a, e in m:
            k = _atoms[a]
            if (k[0] == "sqrt" and (e >= 2 or e < 0)) or (k[0] == "fn" and k[1] == "sin" and e >= 2):
                todo = True
                break
        if todo:
            break
    if not todo:
        return p
    r = ZERO
    acc = {}
    for m, c in p.t.items():
        for idx, (a, e) in enumerate(m):
            k = _atoms[a]
            if k[0] == "sqrt" and (e >= 2 or e < 0):
                rest = m[:idx] + m[idx + 1:]
                h, odd = divmod(e, 2)
                base = Poly({rest: c})
                if odd:
                    base = Poly({mono_mul(rest, ((a, 1),)): c})
                q = k[1]
                if len(q.t) > 8 or (len(q.t) > 2 and abs(h) >= 2):
                    q = atom_poly(("let", q))
                r = r + (base * (q ** h) if h >= 0 else base * (inv(q) ** (-h)))
                break
            if k[0] == "fn" and k[1] == "sin" and e >= 2:
                rest = m[:idx] + m[idx + 1:]
                h, odd = divmod(e, 2)
                base = Poly({mono_mul(rest, ((a, 1),)) if odd else rest: c})
                cc = fn("cos", k[2])
                r = r + base * ((ONE - cc * cc) ** h)
                break
        else:
            v = acc.get(m)
            acc[m] = c if v is None else v + c
    return r + Poly({m: c for m, c in acc.items() if c != 0})


def lead(p):
    m = min(p.t)
    return p.t[m]


def atom_poly(key):
    return Poly({((atom(key), 1),): 1})


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return atom_poly(("fn", "inf", ONE))
        return P(Fraction(1) / Fraction(c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return reduce_powers(Poly({tuple((a, -e) for a, e in m): _norm(Fraction(1) / Fraction(c))}))
    l = lead(p)
    # factor out common monomial content
    q = p * P(Fraction(1) / Fraction(l)) if l != 1 else p
    common = None
    for m in q.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)}
        if not common:
            break
    r = P(_norm(Fraction(1) / Fraction(l)))
    if common:
        cm = tuple(sorted((a, -e) for a, e in common.items()))
        q = q * Poly({cm: 1})
        r = r * Poly({cm: 1})
        if len(q.t) == 1:
            return r * inv(q)
    return r * atom_poly(("inv", q))


def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        f = Fraction(c)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return P(Fraction(a, b))
    if c is not None:
        return atom_poly(("sqrt", p))
    return atom_poly(("sqrt", p))


def fn(name, *args):
    a0 = args[0]
    if name in ("shl", "ior", "iand", "ixor") and all(isinstance(x, Poly) for x in args):
        x, y = a0.const(), args[1].const()
        if x is not None and y is not None and x == int(x) >= 0 and y == int(y) >= 0:
            x, y = int(x), int(y)
            return P(x << y if name == "shl" else x | y if name == "ior" else x & y if name == "iand" else x ^ y)
    if name in ("sin", "cos"):
        c = a0.const()
        if c == 0:
            return ZERO if name == "sin" else ONE
        if c is None:
            # canonical sign
            if lead(a0) < 0:
                r = fn(name, -a0)
                return -r if name == "sin" else r
    elif name == "tan":
        return fn("sin", a0) * inv(fn("cos", a0))
    elif name in ("atan", "asin", "atan2") and a0.is_zero() and name != "atan2":
        return ZERO
    return atom_poly(("fn", name) + args)


LET_THRESHOLD = 24
MUL_THRESHOLD = 100000
SUBST_THRESHOLD = 40


def small_product(a, b):
    """a*b, naming large factors first"""
    if len(a.t) > 1 and len(b.t) > 1 and len(a.t) * len(b.t) > MUL_THRESHOLD:
        if len(a.t) >= len(b.t):
            a = atom_poly(("let", a))
        else:
            b = atom_poly(("let", b))
    return a * b


def maybe_let(p):
    """Names a large term, so that terms built on it stay small."""
    if len(p.t) > LET_THRESHOLD:
        return atom_poly(("let", p))
    return p


def ite(c, a, b):
    if c is BDD.T:
        return a
    if c is BDD.F:
        return b
    if a == b:
        return a
    # sign/complement canonicalisation: lowest edge of the top variable goes to 'a'
    return atom_poly(("ite", c, a, b))


# ---------------------------------------------------------------- BDDs over comparison atoms
class Node(tuple):
    """A BDD node; compared by identity (nodes are hash-consed)"""
    __slots__ = ()
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


class BDD:
    T = Node(("T",))
    F = Node(("F",))
    nodes = {}
    conds = []       # var index -> condition key
    cond_ids = {}
    _ap = {}

    @classmethod
    def reset(cls):
        cls.nodes = {}
        cls.conds = []
        cls.cond_ids = {}
        cls._ap = {}
        cls._id = 0

    _id = 0

    @classmethod
    def mk(cls, v, hi, lo):
        if hi is lo:
            return hi
        k = (v, id(hi), id(lo))
        n = cls.nodes.get(k)
        if n is None:
            cls._id += 1
            n = Node(("N", v, hi, lo, cls._id))
            cls.nodes[k] = n
        return n

    @classmethod
    def var(cls, key):
        i = cls.cond_ids.get(key)
        if i is None:
            i = len(cls.conds)
            cls.conds.append(key)
            cls.cond_ids[key] = i
        return cls.mk(i, cls.T, cls.F)

    @classmethod
    def ite(cls, f, g, h):
        if f is cls.T:
            return g
        if f is cls.F:
            return h
        if g is h:
            return g
        if g is cls.T and h is cls.F:
            return f
        k = (id(f), id(g), id(h))
        r = cls._ap.get(k)
        if r is not None:
            return r
        v = min(x[1] for x in (f, g, h) if x[0] == "N")

        def co(x, s):
            if x[0] == "N" and x[1] == v:
                return x[2] if s else x[3]
            return x
        r = cls.mk(v, cls.ite(co(f, 1), co(g, 1), co(h, 1)), cls.ite(co(f, 0), co(g, 0), co(h, 0)))
        cls._ap[k] = r
        return r

    @classmethod
    def And(cls, a, b):
        return cls.ite(a, b, cls.F)

    @classmethod
    def Or(cls, a, b):
        return cls.ite(a, cls.T, b)

    @classmethod
    def Not(cls, a):
        return cls.ite(a, cls.F, cls.T)

    @classmethod
    def Xor(cls, a, b):
        return cls.ite(a, cls.Not(b), b)

    @classmethod
    def constrain(cls, f, c):
        """f simplified, knowing c"""
        if c is cls.T or f is cls.T or f is cls.F:
            return f
        if c is cls.F:
            return f
        if f is c:
            return cls.T
        v = min(x[1] for x in (f, c) if x[0] == "N")

        def co(x, s):
            if x[0] == "N" and x[1] == v:
                return x[2] if s else x[3]
            return x
        c1, c0 = co(c, 1), co(c, 0)
        if c1 is cls.F:
            return cls.constrain(co(f, 0), c0)
        if c0 is cls.F:
            return cls.constrain(co(f, 1), c1)
        return cls.mk(v, cls.constrain(co(f, 1), c1), cls.constrain(co(f, 0), c0))

    @classmethod
    def support(cls, f, acc=None):
        if acc is None:
            acc = set()
        seen = set()
        st = [f]
        while st:
            x = st.pop()
            if x[0] != "N" or id(x) in seen:
                continue
            seen.add(id(x))
            acc.add(x[1])
            st += [x[2], x[3]]
        return acc

    @classmethod
    def eval(cls, f, asg):
        while f[0] == "N":
            if f[1] not in asg:
                return None
            f = f[2] if asg[f[1]] else f[3]
        return f is cls.T


def _scale_pos(p):
    l = abs(lead(p))
    return p if l == 1 else p * P(Fraction(1) / Fraction(l))


def pos(p):
    """BDD of p > 0"""
    c = p.const()
    if c is not None:
        return BDD.T if c > 0 else BDD.F
    return BDD.var(("pos", _scale_pos(p)))


def nonneg(p):
    return BDD.Not(pos(-p))


def pos_int(p):
    """p > 0 over the integers: p >= 1.  Canonical: one of (p>0), not(1-p>0)"""
    c = p.const()
    if c is not None:
        return BDD.T if c > 0 else BDD.F
    # p > 0  <=> not (1 - p > 0).  pick the form whose leading coefficient is positive
    if lead(p - P(p.t.get((), 0))) > 0:
        return BDD.var(("ipos", p))
    return BDD.Not(BDD.var(("ipos", ONE - p)))


def eq0(p):
    c = p.const()
    if c is not None:
        return BDD.T if c == 0 else BDD.F
    l = lead(p)
    if l != 1:
        p = p * P(Fraction(1) / Fraction(l))
    return BDD.var(("eq", p))


# ---------------------------------------------------------------- traversal
def atoms_of(p, acc=None):
    """All atoms in p, recursively"""
    if acc is None:
        acc = set()
    st = [p]
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    if a not in acc:
                        acc.add(a)
                        st.extend(y for y in _atoms[a][1:])
        elif isinstance(x, tuple) and x and x[0] == "N":
            for v in BDD.support(x):
                k = BDD.conds[v]
                st.extend(k[1:])
        elif isinstance(x, tuple) and x and x[0] in ("T", "F"):
            pass
        elif isinstance(x, tuple):
            st.extend(x)
    return acc


def conds_of(p, acc=None):
    if acc is None:
        acc = set()
    for a in atoms_of(p):
        k = _atoms[a]
        if k[0] == "ite":
            BDD.support(k[1], acc)
    # conditions whose own terms contain gates
    return acc


def rebuild(key, f):
    """An atom rebuilt with its sub-terms mapped by f"""
    k = key[0]
    if k == "var":
        return atom_poly(key)
    if k == "inv":
        return inv(f(key[1]))
    if k == "sqrt":
        return sqrt(f(key[1]))
    if k == "let":
        return maybe_let(f(key[1]))
    if k == "fn":
        return fn(key[1], *[f(x) if isinstance(x, Poly) else x for x in key[2:]])
    if k == "ite":
        return ite(key[1], f(key[2]), f(key[3]))
    if k == "gather":
        return atom_poly(("gather", key[1], f(key[2])))
    raise ValueError(key)


# ---- a read of a local array at an offset known only at run time
_tables = []
_table_ids = {}


def gather(entries, off):
    """entries: [(constant byte offset, term)]"""
    k = tuple(entries)
    i = _table_ids.get(k)
    if i is None:
        i = _table_ids[k] = len(_tables)
        _tables.append(dict(entries))
    return atom_poly(("gather", i, off))


def subst(p, amap, cache=None, asg=None):
    """Substitute atoms by polys (amap: atom id -> Poly) and decide gates by asg (cond index -> bool)"""
    if cache is None:
        cache = {}

    def go_atom(a):
        r = cache.get(a)
        if r is None:
            if a in amap:
                r = amap[a]
            else:
                key = _atoms[a]
                if key[0] == "ite" and asg is not None:
                    b = BDD.eval(key[1], asg)
                    if b is not None:
                        r = go(key[2] if b else key[3])
                    else:
                        r = rebuild(key, go)
                elif key[0] == "gather" and isinstance(asg, AtPoint):
                    o = asg.I.ev(key[2])
                    e = _tables[key[1]].get(int(o) if o == o else None)
                    r = go(e) if e is not None else var("undef")
                elif key[0] == "var":
                    r = atom_poly(key)
                else:
                    r = rebuild(key, go)
            cache[a] = r
        return r

    def go(q):
        res = ZERO
        for m, c in q.t.items():
            term = P(c)
            for a, e in m:
                v = go_atom(a)
                if (len(v.t) > 1 and e > 1) or len(v.t) > 6 or len(v.t) * len(term.t) > SUBST_THRESHOLD:
                    v = atom_poly(("let", v))
                if e < 0:
                    v = inv(v)
                    e = -e
                term = term * (v ** e)
            res = res + term
        return res
    return go(p)


class AtPoint(dict):
    """Gate outcomes at an interpretation point, evaluated on demand (the path the point takes)"""

    def __init__(self, I):
        dict.__init__(self)
        self.I = I

    def __contains__(self, i):
        return True

    def get(self, i, d=None):
        return self[i]

    def __missing__(self, i):
        self[i] = v = self.I.cond(i)
        return v


def on_path(p, I, cache=None):
    """The term p, with every gate resolved the way it goes at the point of I"""
    return subst(p, {}, cache, AtPoint(I))


def cases(polys, extra_conds=(), limit=14):
    """All consistent truth assignments to the comparison atoms gating the terms.
    Yields dict cond index -> bool."""
    cs = set(extra_conds)
    for p in polys:
        conds_of(p, cs)
    cs = sorted(cs)
    if len(cs) > limit:
        raise OverflowError("too many gates: %d" % len(cs))

    def consistent(asg):
        groups = {}
        for i, b in asg.items():
            k = BDD.conds[i]
            if k[0] not in ("pos", "eq", "ipos"):
                continue
            p = k[1]
            c0 = p.t.get((), 0)
            q = Poly({m: c for m, c in p.t.items() if m != ()})
            if q.is_zero():
                continue
            l = lead(q)
            s = 1
            qn = q * P(Fraction(1) / Fraction(l))
            c0 = Fraction(c0) / Fraction(l)
            if l < 0:
                s = -1
            groups.setdefault(qn, []).append((k[0], s, c0, b))
        for q, lst in groups.items():
            lo, los = None, False   # q > lo (strict) or >=
            hi, his = None, False
            eqs = []
            nes = []
            for kind, s, c0, b in lst:
                # s*(q + c0) > 0 or == 0
                if kind == "eq":
                    (eqs if b else nes).append(-c0)
                    continue
                strict = b
                gt = (s > 0) == b
                v = -c0
                if gt:
                    if lo is None or v > lo or (v == lo and strict):
                        lo, los = v, strict
                else:
                    if hi is None or v < hi or (v == hi and strict):
                        hi, his = v, strict
            if lo is not None and hi is not None:
                if lo > hi or (lo == hi and (los or his)):
                    return False
                if lo == hi and lo in nes:
                    return False
            if len(set(eqs)) > 1:
                return False
            if eqs:
                e = eqs[0]
                if e in nes or (lo is not None and (e < lo or (e == lo and los))) or \
                        (hi is not None and (e > hi or (e == hi and his))):
                    return False
        return True

    def rec(i, asg):
        if i == len(cs):
            yield dict(asg)
            return
        for b in (True, False):
            asg[cs[i]] = b
            if consistent(asg):
                yield from rec(i + 1, asg)
            del asg[cs[i]]
    yield from rec(0, {})


def split_cases(polys, extra_conds=(), limit=14, maxcases=4000):
    """[(assignment, gate-free terms)]; gates that only appear after others are decided are split too."""
    out = []
    n = 0
    for asg in cases(polys, extra_conds, limit):
        cache = {}
        ps = [subst(p, {}, cache, asg) for p in polys]
        out.append((asg, ps))
        n += 1
        if n > maxcases:
            raise OverflowError("too many cases")
    return out


# ---------------------------------------------------------------- differentiation
_dcache = {}


def diff_atom(a, v):
    k = (a, v)
    r = _dcache.get(k)
    if r is not None:
        return r
    key = _atoms[a]
    kind = key[0]
    if a == v:
        r = ONE
    elif kind == "var":
        r = ZERO
    elif kind == "inv":
        d = diff(key[1], v)
        r = ZERO if d.is_zero() else -(d * Poly({((a, 2),): 1}))
    elif kind == "sqrt":
        d = diff(key[1], v)
        r = ZERO if d.is_zero() else d * Poly({((a, 1),): Fraction(1, 2)}) * inv(key[1])
    elif kind == "let":
        r = maybe_let(diff(key[1], v))
    elif kind == "fn":
        name = key[1]
        args = [x for x in key[2:]]
        ds = [diff(x, v) if isinstance(x, Poly) else ZERO for x in args]
        if all(d.is_zero() for d in ds):
            r = ZERO
        elif name == "sin":
            r = fn("cos", args[0]) * ds[0]
        elif name == "cos":
            r = -fn("sin", args[0]) * ds[0]
        elif name == "atan":
            r = ds[0] * inv(ONE + args[0] * args[0])
        elif name == "asin":
            r = ds[0] * inv(sqrt(ONE - args[0] * args[0]))
        elif name == "acos":
            r = -ds[0] * inv(sqrt(ONE - args[0] * args[0]))
        elif name == "exp":
            r = fn("exp", args[0]) * ds[0]
        elif name == "log":
            r = ds[0] * inv(args[0])
        elif name == "atan2":
            y, x = args
            r = (x * ds[0] - y * ds[1]) * inv(x * x + y * y)
        elif name == "fabs":
            r = fn("sign", args[0]) * ds[0]
        elif name in ("sign", "fptosi", "shl", "ior", "iand", "ixor", "idiv", "irem", "floor", "ceil", "round", "fptoui", "sitofp"):
            r = ZERO
        else:
            raise NotImplementedError("derivative of " + name)
    elif kind == "ite":
        r = ite(key[1], diff(key[2], v), diff(key[3], v))
    else:
        raise NotImplementedError(kind)
    r = maybe_let(r)
    _dcache[k] = r
    return r


def diff(p, v):
    r = ZERO
    for m, c in p.t.items():
        for idx, (a, e) in enumerate(m):
            d = diff_atom(a, v)
            if d.is_zero():
                continue
            rest = m[:idx] + (((a, e - 1),) if e != 1 else ()) + m[idx + 1:]
            r = r + small_product(Poly({rest: _norm(c * e)}), d)
    return r


# ---------------------------------------------------------------- zero test
def expand_lets(p, which=None):
    """Expand the outermost (newest) let atoms of p"""
    amap = {}
    for m in p.t:
        for a, e in m:
            k = _atoms[a]
            if k[0] == "let":
                amap[a] = k[1]
    if not amap:
        return p, False
    top = max(amap)
    q = k = None
    r = ZERO
    body = amap[top]
    for m, c in p.t.items():
        for idx, (a, e) in enumerate(m):
            if a == top:
                rest = Poly({m[:idx] + m[idx + 1:]: c})
                if e > 0:
                    r = r + rest * (body ** e)
                else:
                    r = r + rest * (inv(body) ** (-e))
                break
        else:
            r = r + Poly({m: c})
    return r, True


def clear_inv(p):
    """Multiply by the largest power of a denominator atom"""
    best = None
    deg = {}
    for m in p.t:
        for a, e in m:
            if _atoms[a][0] == "inv":
                if e > deg.get(a, 0):
                    deg[a] = e
            elif e < 0:
                if -e > deg.get(("neg", a), 0):
                    deg[("neg", a)] = -e
    if not deg:
        return p, False
    # newest first
    invs = [a for a in deg if not isinstance(a, tuple)]
    if invs:
        a = max(invs)
        q = _atoms[a][1]
        K = deg[a]
        r = ZERO
        pw = [ONE]
        for _ in range(K):
            pw.append(pw[-1] * q)
        byk = {}
        for m, c in p.t.items():
            e = 0
            rest = m
            for idx, (b, be) in enumerate(m):
                if b == a:
                    e = be
                    rest = m[:idx] + m[idx + 1:]
                    break
            byk.setdefault(e, {})[rest] = c
        for e, t in byk.items():
            if e < 0:
                r = r + Poly(t) * pw[K] * (q ** (-e))
            else:
                r = r + Poly(t) * pw[K - e]
        return r, True
    t = tuple(sorted((k[1], v) for k, v in deg.items()))
    return p * Poly({t: 1}), True


def trim(p, tol=1e-11):
    """Drop coefficients that are rounding noise of literal constants"""
    if not p.t:
        return p
    mx = max(abs(c) for c in p.t.values())
    return p


def proves_zero(p, limit=6000, budget=300000):
    """True if the normal form of p is 0;  False if it is not;  None if too large to tell."""
    _budget[0] = budget
    try:
        return _proves_zero(p, limit)
    except Budget:
        return None
    finally:
        _budget[0] = None


def _proves_zero(p, limit):
    for _ in range(400):
        if p.is_zero():
            return True
        if len(p.t) > limit:
            return None
        p, ch = clear_inv(p)
        if ch:
            continue
        p, ch = expand_lets(p)
        if not ch:
            break
    if p.is_zero():
        return True
    return False


# ---------------------------------------------------------------- interpretation of terms at a point
class Interp:
    """Assigns numbers to the atoms of a term graph (random interpretation)."""

    def __init__(self, seed=1, assume=None):
        import random
        self.rng = random.Random(seed)
        self.vals = {}
        self.assume = assume or {}
        self.asg = None

    def atom(self, a):
        v = self.vals.get(a)
        if v is not None:
            return v
        k = _atoms[a]
        if k[0] == "var":
            v = self.assume.get(k[1:])
            if v is None:
                v = self.rng.uniform(0.3, 1.7) * (1 if self.rng.random() < 0.6 else -1)
        elif k[0] == "inv":
            x = self.ev(k[1])
            v = 1.0 / x if x != 0 else float("nan")
        elif k[0] == "sqrt":
            x = self.ev(k[1])
            v = math.sqrt(x) if x >= 0 else float("nan")
        elif k[0] == "let":
            v = self.ev(k[1])
        elif k[0] == "fn":
            args = [self.ev(x) if isinstance(x, Poly) else x for x in k[2:]]
            n = k[1]
            try:
                if n == "sin":
                    v = math.sin(args[0])
                elif n == "cos":
                    v = math.cos(args[0])
                elif n == "atan":
                    v = math.atan(args[0])
                elif n == "asin":
                    v = math.asin(args[0])
                elif n == "acos":
                    v = math.acos(args[0])
                elif n == "atan2":
                    v = math.atan2(args[0], args[1])
                elif n == "exp":
                    v = math.exp(args[0])
                elif n == "log":
                    v = math.log(args[0])
                elif n == "fabs":
                    v = abs(args[0])
                elif n == "sign":
                    v = math.copysign(1.0, args[0])
                elif n == "fptosi":
                    v = float(int(args[0]))
                elif n == "floor":
                    v = math.floor(args[0])
                elif n == "shl":
                    v = args[0] * 2 ** int(args[1])
                elif n in ("idiv", "irem"):
                    x, y = int(args[0]), int(args[1])
                    q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                    v = float(q if n == "idiv" else x - q * y)
                elif n in ("ior", "iand", "ixor"):
                    x, y = int(args[0]), int(args[1])
                    v = float(x | y if n == "ior" else x & y if n == "iand" else x ^ y)
                else:
                    import zlib
                    h = zlib.crc32(repr((n, [round(x, 12) if isinstance(x, float) else x for x in args])).encode())
                    v = (h % 100003) / 50000.0 - 1.0
            except (ValueError, OverflowError):
                v = float("nan")
        elif k[0] == "ite":
            b = self.bdd(k[1])
            v = self.ev(k[2] if b else k[3])
        elif k[0] == "gather":
            o = self.ev(k[2])
            e = _tables[k[1]].get(int(o) if o == o else None)
            v = self.ev(e) if e is not None else float("nan")
        self.vals[a] = v
        return v

    def cond(self, i):
        if self.asg is not None and i in self.asg:
            return self.asg[i]
        k = BDD.conds[i]
        if k[0] in ("pos", "ipos"):
            return self.ev(k[1]) > 0
        if k[0] == "eq":
            return self.ev(k[1]) == 0
        import zlib
        return bool(zlib.crc32(repr(k).encode()) & 1)

    def bdd(self, f):
        while f[0] == "N":
            f = f[2] if self.cond(f[1]) else f[3]
        return f is BDD.T

    def ev(self, p):
        s = 0.0
        for m, c in p.t.items():
            t = float(c)
            for a, e in m:
                v = self.atom(a)
                try:
                    t *= v ** e
                except (ZeroDivisionError, OverflowError):
                    t = float("nan")
            s += t
        return s

    def mag(self, p):
        s = 0.0
        for m, c in p.t.items():
            t = abs(float(c))
            for a, e in m:
                try:
                    t *= abs(self.atom(a)) ** e
                except (ZeroDivisionError, OverflowError):
                    t = float("nan")
            s += t
        return s


class MPInterp(Interp):
    """The same, with 60 digits"""

    def __init__(self, seed=1, assume=None):
        import mpmath
        self.mp = mpmath
        mpmath.mp.dps = 60
        self.memo = {}
        self.pows = {}
        Interp.__init__(self, seed, {k: mpmath.mpf(v) for k, v in (assume or {}).items()})

    def atom(self, a):
        v = self.vals.get(a)
        if v is not None:
            return v
        mp = self.mp
        k = _atoms[a]
        if k[0] == "var":
            v = self.assume.get(k[1:])
            if v is None:
                v = mp.mpf(self.rng.uniform(0.3, 1.7) * (1 if self.rng.random() < 0.6 else -1))
        elif k[0] == "inv":
            x = self.ev(k[1])
            v = 1 / x if x != 0 else mp.nan
        elif k[0] == "sqrt":
            x = self.ev(k[1])
            v = mp.sqrt(x) if x >= 0 else mp.nan
        elif k[0] == "fn" and k[1] in ("sin", "cos", "atan", "asin", "acos", "exp", "log", "atan2"):
            args = [self.ev(x) for x in k[2:]]
            try:
                v = getattr(mp, k[1])(*args)
                if isinstance(v, mp.mpc):
                    v = mp.nan
            except (ValueError, ZeroDivisionError):
                v = mp.nan
        else:
            return Interp.atom(self, a)
        self.vals[a] = v
        return v

    def ev(self, p):
        hit = self.memo.get(id(p))
        if hit is not None:
            return hit[1]
        mp = self.mp
        s = mp.mpf(0)
        for m, c in p.t.items():
            if isinstance(c, Fraction) and c.denominator != 1:
                t = mp.mpf(c.numerator) / c.denominator
            else:
                t = mp.mpf(int(c) if c == int(c) else c) if c != 1 else None
            for ae in m:
                v = self.pows.get(ae)
                if v is None:
                    a, e = ae
                    v = self.atom(a)
                    if e != 1:
                        try:
                            v = v ** e
                        except ZeroDivisionError:
                            v = mp.nan
                    self.pows[ae] = v
                t = v if t is None else t * v
            s += 1 if t is None else t
        self.memo[id(p)] = (p, s)       # p is kept alive, so that its id stays its own
        return s


def decide_equal(a, b, interps=None, npts=4, seed=7, assume=None, limit=4000, budget=300000):
    """('equal',None) by normal form; ('differ', witness) ; ('unproved', None).

    The cheap refutation comes first: the difference of the two terms interpreted at points; a
    difference clearly above rounding refutes equality.  Otherwise the normal form must prove it."""
    d = a - b
    if d.is_zero():
        return ("equal", None)
    bad = 0
    ok = 0
    for s in range(npts * 3):
        I = Interp(seed + s, assume)
        x, y = I.ev(a), I.ev(b)
        if x != x or y != y:
            continue
        m = max(I.mag(a), I.mag(b), 1e-6)
        if abs(x - y) > 1e-7 * m:
            bad += 1
            w = (x, y)
        ok += 1
        if ok >= npts:
            break
    if bad >= 1 and bad * 2 >= ok:
        return ("differ", w)
    r = proves_zero(d, limit, budget) if budget else None
    if r is True:
        return ("equal", None)
    if bad:
        return ("differ", w)
    if ok == 0 and r is False:
        return ("differ", None)
    return ("unproved", None)


# ---------------------------------------------------------------- printing
def show_atom(a, depth=3):
    k = _atoms[a]
    if k[0] == "var":
        return "".join(str(x) for x in k[1:])
    if depth <= 0:
        return "..."
    if k[0] == "let":
        return "{" + show(k[1], depth - 1) + "}"
    if k[0] == "ite":
        return "(%s ? %s : %s)" % (show_bdd(k[1], depth - 1), show(k[2], depth - 1), show(k[3], depth - 1))
    if k[0] == "fn":
        return "%s(%s)" % (k[1], ",".join(show(x, depth - 1) if isinstance(x, Poly) else str(x) for x in k[2:]))
    return "%s(%s)" % (k[0], show(k[1], depth - 1))


def show(p, depth=3, maxterms=8):
    if not p.t:
        return "0"
    out = []
    for n, (m, c) in enumerate(sorted(p.t.items(), key=lambda x: x[0])):
        if n >= maxterms:
            out.append("...(%d terms)" % len(p.t))
            break
        f = [show_atom(a, depth) + ("^%d" % e if e != 1 else "") for a, e in m]
        if isinstance(c, Fraction):
            c = float(c)
        if c != 1 or not f:
            f.insert(0, str(c))
        out.append("*".join(f))
    return " + ".join(out)


def show_cond(i, depth=2):
    k = BDD.conds[i]
    if k[0] in ("pos", "ipos"):
        return "%s>0" % show(k[1], depth)
    if k[0] == "eq":
        return "%s==0" % show(k[1], depth)
    return str(k)


def show_bdd(f, depth=2):
    if f is BDD.T:
        return "true"
    if f is BDD.F:
        return "false"
    s = sorted(BDD.support(f))
    if len(s) == 1:
        return ("" if f[2] is BDD.T else "!") + "(" + show_cond(s[0], depth) + ")"
    return "cond[%s]" % "; ".join(show_cond(i, depth) for i in s[:4])
