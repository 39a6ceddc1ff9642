"""Path-sensitive typestate over LLVM IR.

An abstract state is (known values, memory cells, resources, facts).  Values that matter are constants, null and handles of
resources; everything else is unknown.  A conditional branch on an unknown value is explored both ways, and the assumption
is kept for as long as the value lives, so that correlated tests (if(p) ... if(p) free(p)) are seen to be correlated.
States are memoised per block on what is still live there, which makes the exploration finite."""
import ir

LIMIT = 400000


class Budget(Exception):
    pass


class State:
    __slots__ = ("env", "mem", "res", "facts", "trail")

    def __init__(self, env=None, mem=None, res=None, facts=frozenset(), trail=None):
        self.env, self.mem, self.res, self.facts, self.trail = env or {}, mem or {}, res or {}, facts, trail

    def copy(self):
        return State(dict(self.env), dict(self.mem), dict(self.res), self.facts, self.trail)

    def path(self, n=30):
        """Lines of the last branches taken"""
        out, t = [], self.trail
        while t is not None and len(out) < n:
            t, b = t
            line = b.term.where().rsplit(":", 1)[-1] if b.term is not None else "0"
            if line != "0" and (not out or out[-1] != line) and b.term.op != "ret" and len(b.succs) > 1:
                out.append(line)
        return " > ".join(reversed(out))

    def key(self, live):
        return (frozenset((id(k), v) for k, v in self.env.items() if k in live), frozenset(self.mem.items()),
                frozenset(self.res.items()), self.facts)


def liveness(F):
    use, live = {}, {}
    for b in F.blocks:
        u, d = set(), set()
        for i in b.insts:
            if i.op != "phi":
                for v in i.ops:
                    u |= {x for x in vals(v) if x not in d}
            d.add(i)
        use[b] = (u, d)
        live[b] = set(u)
    phi_use = {}
    for b in F.blocks:
        for i in b.insts:
            if i.op == "phi":
                for v, p in i.incoming:
                    if isinstance(v, (ir.Inst, ir.Arg)):
                        phi_use.setdefault(p, set()).add(v)
    work = True
    while work:
        work = False
        for b in reversed(F.blocks):
            out = set(phi_use.get(b, ()))
            for s in b.succs:
                out |= live[s]
            n = use[b][0] | (out - use[b][1])
            if n != live[b]:
                live[b] = n
                work = True
    # phis defined in the block are live into it once the edge is taken
    for b in F.blocks:
        live[b] = live[b] | {i for i in b.insts if i.op == "phi"}
    # a condition computed from a live value is worth remembering as long as that value lives: keep conditions used later
    return live


def vals(v):
    if isinstance(v, (ir.Inst, ir.Arg)):
        yield v


class Explorer:
    """Subclass and override call(state, inst) -> list of states (or None: the default), and at_return(state, inst, value)"""

    refine_memory = True
    merge = None        # or the set of values whose knowledge keeps states apart

    def __init__(self, F):
        self.F = F
        self.live = liveness(F)
        self.n = 0
        self.trace_at = None

    # --- values
    def val(self, s, v):
        if isinstance(v, ir.Const):
            if v.kind == "int":
                return ("c", v.v)
            if v.kind == "null":
                return ("c", 0)
            if v.kind == "expr":
                # inttoptr of a constant: (void*)-1
                if v.op == "inttoptr" and v.ops and isinstance(v.ops[0], ir.Const) and v.ops[0].kind == "int":
                    return ("c", v.ops[0].v)
                return ("nz",)
            return None
        if isinstance(v, (ir.Global, ir.Function)):
            return ("nz",)
        return s.env.get(v)

    def cell(self, s, p):
        """Memory cell a pointer designates: ('a', alloca, offset) or ('p', argument, offset)"""
        off = 0
        while isinstance(p, ir.Inst) and p.op in ("gep", "bitcast"):
            if p.op == "gep":
                b, o, var = ir.gep_parts(p)
                if var:
                    return None
                off += o
                p = b
            else:
                p = p.ops[0]
        if isinstance(p, ir.Inst) and p.op == "alloca":
            return ("a", p, off)
        if isinstance(p, ir.Arg):
            return ("p", p, off)
        if isinstance(p, ir.Global):
            return ("g", p, off)
        return None

    def root(self, p):
        while isinstance(p, ir.Inst) and p.op in ("gep", "bitcast", "phi", "select"):
            if p.op in ("phi", "select"):
                return None
            p = p.ops[0]
        return p

    # --- assumptions
    def assume(self, s, c, truth):
        """Refine s with 'c is truth'; False if impossible"""
        v = self.val(s, c)
        if v is not None:
            if v[0] == "c":
                return bool(v[1] & 1) == truth
            return True
        if not isinstance(c, ir.Inst):
            if isinstance(c, ir.Arg):
                s.env[c] = ("c", int(truth))
            return True
        s.env[c] = ("c", int(truth))
        if c.op == "xor":
            a, b = c.ops
            if isinstance(b, ir.Const) and b.kind == "int":
                return self.assume(s, a, truth != bool(b.v & 1))
        elif c.op in ("trunc", "zext", "freeze"):
            return self.assume_value(s, c.ops[0], ("c", int(truth)) if c.op != "trunc" or True else None)
        elif c.op == "icmp":
            a, b = c.ops
            va, vb = self.val(s, a), self.val(s, b)
            if va is not None and va[0] == "c" and (vb is None or vb[0] != "c"):
                a, b, va, vb = b, a, vb, va
                swap = True
            else:
                swap = False
            if vb is not None and vb[0] == "c":
                p = c.pred
                if (p == "eq") == truth and p in ("eq", "ne"):
                    return self.assume_value(s, a, vb)
                if p in ("eq", "ne") and vb[1] == 0:
                    return self.assume_value(s, a, ("nz",))
                if p in ("eq", "ne"):
                    return True
                if not swap and vb[1] == 0 and (p == "slt" and truth or p == "sge" and not truth):
                    return self.assume_value(s, a, ("nz",))
                if not swap and vb[1] == 0 and (p == "sgt" and truth or p == "sle" and not truth):
                    return self.assume_value(s, a, ("nz",))
        elif c.op == "and" and truth or c.op == "or" and not truth:
            return all(self.assume(s, x, truth) for x in c.ops)
        return True

    def assume_value(self, s, x, v):
        cur = self.val(s, x)
        if cur is not None:
            return compatible(cur, v)
        if isinstance(x, ir.Inst) and x.op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            if v[0] == "c" and v[1] in (0, 1):
                s.env[x] = v
                return self.assume_value(s, x.ops[0], v)
        if isinstance(x, ir.Inst) and x.op == "icmp" and v[0] == "c":
            return self.assume(s, x, bool(v[1]))
        if isinstance(x, (ir.Inst, ir.Arg)):
            s.env[x] = v
            if self.refine_memory and isinstance(x, ir.Inst) and x.op == "load":
                k = self.cell(s, x.ops[0])
                if k is not None and k not in s.mem:
                    s.mem[k] = v
        return True

    # --- transfer
    def run(self):
        from collections import deque
        st = deque([(self.F.blocks[0], None, State())])
        seen, joined = set(), {}
        while st:
            b, pred, s = st.pop()
            s = s.copy()
            if pred is not None:
                new = {}
                for i in b.insts:
                    if i.op != "phi":
                        break
                    v = next(v for v, p in i.incoming if p is pred)
                    new[i] = self.val(s, v)
                for i, v in new.items():
                    if v is None:
                        s.env.pop(i, None)
                    else:
                        s.env[i] = v
            for k in [k for k in s.env if k not in self.live[b]]:
                del s.env[k]
            if self.merge is not None and len(b.preds) == 1:
                pass
            elif self.merge is not None:
                # property-directed merging: states that agree on the property are joined, and what they know is intersected
                k = (b, s.facts, frozenset((id(x), v) for x, v in s.env.items() if x in self.merge), self.merge_key(s, self.live[b]))
                old = joined.get(k)
                if old is not None:
                    env = {x: v for x, v in old.env.items() if s.env.get(x) == v}
                    mem = {x: v for x, v in old.mem.items() if s.mem.get(x) == v}
                    if env == old.env and mem == old.mem:
                        continue
                    s.env, s.mem = env, mem
                joined[k] = s.copy()
            else:
                key = (b, s.key(self.live[b]))
                if key in seen:
                    continue
                seen.add(key)
            s.trail = (s.trail, b)
            self.n += 1
            if self.n > LIMIT:
                raise Budget(self.F.name)
            for s2 in self.block(b, s):
                t = b.term
                if t.op == "ret":
                    self.at_return(s2, t, self.val(s2, t.ops[0]) if t.ops else None)
                elif t.op == "br":
                    if len(t.targets) == 1:
                        st.append((t.targets[0], b, s2))
                    else:
                        v = self.val(s2, t.ops[0])
                        if v is not None and v[0] == "c":
                            st.append((t.targets[0 if v[1] & 1 else 1], b, s2))
                        else:
                            for k, truth in ((0, True), (1, False)):
                                s3 = s2.copy()
                                if self.assume(s3, t.ops[0], truth):
                                    st.append((t.targets[k], b, s3))
                elif t.op == "switch":
                    v = self.val(s2, t.ops[0])
                    if v is not None and v[0] == "c":
                        x = next((x for c, x in zip(t.cases, t.targets[1:]) if cint(c) == v[1]), t.targets[0])
                        st.append((x, b, s2))
                        continue
                    for c, x in zip(t.cases, t.targets[1:]):
                        s3 = s2.copy()
                        if cint(c) is None or self.assume_value(s3, t.ops[0], ("c", cint(c))):
                            st.append((x, b, s3))
                    st.append((t.targets[0], b, s2))
                elif t.op == "invoke":
                    for x in t.targets[:1]:
                        st.append((x, b, s2))

    def block(self, b, s):
        states = [s]
        for i in b.insts:
            if i.op == "phi":
                continue
            states = [y for x in states for y in self.step(x, i)]
        return states

    def step(self, s, i):
        op = i.op
        s.env.pop(i, None)
        if op in ("bitcast", "freeze", "zext", "sext", "inttoptr", "ptrtoint"):
            v = self.val(s, i.ops[0])
            if v is not None and not (op == "sext" and v[0] == "c" and v[1] == 1):
                s.env[i] = v
            elif v is not None:
                s.env[i] = ("nz",)
        elif op == "trunc":
            v = self.val(s, i.ops[0])
            if v is not None and v[0] == "c":
                s.env[i] = v
        elif op == "gep":
            v = self.val(s, i.ops[0])
            if v is not None and v[0] == "r" and not any(not (isinstance(x, ir.Const) and x.kind == "int" and x.v == 0) for x in i.ops[1:]):
                s.env[i] = v
            elif v is not None and v[0] in ("r", "nz"):
                s.env[i] = ("nz",)
            elif self.root(i) is not None and isinstance(self.root(i), ir.Inst) and self.root(i).op == "alloca":
                s.env[i] = ("nz",)
        elif op == "alloca":
            s.env[i] = ("nz",)
        elif op == "load":
            self.on_access(s, i, i.ops[0])
            k = self.cell(s, i.ops[0])
            if k is not None and k in s.mem:
                s.env[i] = s.mem[k]
        elif op == "store":
            self.on_access(s, i, i.ops[1])
            k = self.cell(s, i.ops[1])
            v = self.val(s, i.ops[0])
            self.on_store(s, i, k, v)
            if k is not None:
                if v is None:
                    s.mem.pop(k, None)
                else:
                    s.mem[k] = v
        elif op == "icmp":
            v = self.icmp(s, i)
            if v is not None:
                s.env[i] = ("c", int(v))
        elif op == "fcmp":
            # only the sign of a returned status is tracked
            a, b = i.ops
            v = self.val(s, a)
            if v is not None and v[0] == "sign" and isinstance(b, ir.Const) and b.kind == "fp" and b.v == 0 and len(i.pred) == 3:
                if i.pred[1:] == "lt":
                    s.env[i] = ("c", int(v[1] < 0))
                elif i.pred[1:] == "ge":
                    s.env[i] = ("c", int(v[1] >= 0))
                elif v[1] < 0:
                    s.env[i] = ("c", int(i.pred[1:] in ("le", "ne")))
        elif op == "xor":
            a, b = self.val(s, i.ops[0]), self.val(s, i.ops[1])
            if a and b and a[0] == b[0] == "c":
                s.env[i] = ("c", a[1] ^ b[1])
        elif op in ("and", "or"):
            a, b = self.val(s, i.ops[0]), self.val(s, i.ops[1])
            for x in (a, b):
                if x and x[0] == "c" and (x[1] == 0 and op == "and" or x[1] == 1 and op == "or" and i.type.bits == 1):
                    s.env[i] = x
            if a and b and a[0] == b[0] == "c":
                s.env[i] = ("c", a[1] & b[1] if op == "and" else a[1] | b[1])
        elif op == "select":
            c = self.val(s, i.ops[0])
            out = []
            for k, truth in ((1, True), (2, False)):
                if c is not None and c[0] == "c" and bool(c[1] & 1) != truth:
                    continue
                s2 = s.copy() if c is None or c[0] != "c" else s
                if c is None and not self.assume(s2, i.ops[0], truth):
                    continue
                v = self.val(s2, i.ops[k])
                if v is not None:
                    s2.env[i] = v
                out.append(s2)
            return out
        elif op in ("call", "invoke"):
            n = ir.callee_name(i)
            if n and n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume")):
                return [s]
            if n and n.startswith(("llvm.memcpy", "llvm.memmove")):
                self.copy_cells(s, i)
                return [s]
            r = self.call(s, i, n)
            if r is not None:
                return r
            self.clobber(s, i, n)
        return [s]

    def icmp(self, s, i):
        a, b = self.val(s, i.ops[0]), self.val(s, i.ops[1])
        if a is None or b is None:
            return None
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            return {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}.get(i.pred)
        for x, y in ((a, b), (b, a)):
            if x[0] in ("r", "nz") and y == ("c", 0) and i.pred in ("eq", "ne"):
                return i.pred == "ne"
            if x[0] == "r" and y == ("c", -1) and i.pred in ("eq", "ne"):
                return i.pred == "ne"
        if a[0] == "nn" and b[0] == "c" and b[1] <= 0:
            # a count: never negative
            return {"slt": False, "sge": True, "eq": False if b[1] else None, "ne": True if b[1] else None,
                    "sgt": True if b[1] else None}.get(i.pred)
        if a[0] == "r" and b == ("c", 0):
            # handles are >= 0 where they are integers
            return {"slt": False, "sge": True}.get(i.pred)
        if a[0] == "r" and b[0] == "r" and a == b:
            return {"eq": True, "ne": False}.get(i.pred)
        return None

    def clobber(self, s, i, n, keep=()):
        """A call may change memory whose address it gets"""
        for v in i.ops:
            r = self.root(v)
            if isinstance(r, (ir.Inst, ir.Arg)):
                for k in [k for k in s.mem if k[1] is r and k not in keep]:
                    del s.mem[k]

    def copy_cells(self, s, i):
        d, c, n = self.cell(s, i.ops[0]), self.cell(s, i.ops[1]), self.val(s, i.ops[2])
        got = {}
        if d is None:
            self.clobber(s, i, None)
            r = self.root(i.ops[1])
            for k in [k for k in s.mem if k[1] is r]:
                self.on_store(s, i, None, s.mem[k])
            return
        size = n[1] if n is not None and n[0] == "c" else 1 << 30
        if c is not None:
            for k, v in s.mem.items():
                if k[:2] == c[:2] and c[2] <= k[2] < c[2] + size:
                    got[d[:2] + (d[2] + k[2] - c[2],)] = v
        for k in [k for k in s.mem if k[:2] == d[:2] and d[2] <= k[2] < d[2] + size]:
            del s.mem[k]
        for k, v in got.items():
            self.on_store(s, i, k, v)
            s.mem[k] = v

    # --- hooks
    def merge_key(self, s, live):
        """What else keeps states apart when states are merged"""

    def call(self, s, i, n):
        return None

    def on_access(self, s, i, p):
        """Memory is read or written through p"""

    def on_store(self, s, i, k, v):
        pass

    def at_return(self, s, i, v):
        pass


def cint(c):
    if isinstance(c, tuple):
        c = c[0]
    return c if isinstance(c, int) else getattr(c, "v", None)


def flows_to_return(F):
    """Values that reach the returned value through phis, selects and casts"""
    out, work = set(), [v for b in F.blocks if b.term.op == "ret" for v in b.term.ops]
    while work:
        v = work.pop()
        if not isinstance(v, (ir.Inst, ir.Arg)) or v in out:
            continue
        out.add(v)
        if isinstance(v, ir.Inst):
            if v.op == "phi":
                work += [x for x, _ in v.incoming]
            elif v.op == "select":
                work += v.ops[1:]
            elif v.op in ("bitcast", "freeze", "zext", "sext", "trunc"):
                work += v.ops
    return out


def flags(F):
    """Integer phis that some constant reaches: flags, and the selectors clang makes of a return from within a scope"""
    return {i for b in F.blocks for i in b.insts if i.op == "phi" and i.type.kind == "int"
            and any(isinstance(v, ir.Const) and v.kind == "int" for v, _ in i.incoming)}


def compatible(a, b):
    if a == b:
        return True
    z = lambda v: v[0] == "c" and v[1] == 0
    nz = lambda v: v[0] in ("r", "nz") or v[0] == "c" and v[1] != 0
    if a[0] == "c" and b[0] == "c":
        return a[1] == b[1]
    if z(a) and nz(b) or z(b) and nz(a):
        return False
    if a[0] == "r" and b == ("c", -1) or b[0] == "r" and a == ("c", -1):
        return False
    return True


def dominators(F):
    """block -> set of blocks that dominate it"""
    allb = set(F.blocks)
    dom = {b: set(allb) for b in F.blocks}
    dom[F.blocks[0]] = {F.blocks[0]}
    work = True
    while work:
        work = False
        for b in F.blocks[1:]:
            p = [dom[x] for x in b.preds]
            n = (set.intersection(*p) if p else set()) | {b}
            if n != dom[b]:
                dom[b] = n
                work = True
    return dom
