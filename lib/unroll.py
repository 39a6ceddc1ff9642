"""Unroll the remaining natural loops of a function K times (in place).  The function must be in LCSSA and
loop-simplified form.  Leaving the last copy through its back edge leads to a block marked 'overflow': the evaluator
must show it unreachable."""
import ir
from front import AnalysisError


def _loops(F):
    """Outermost natural loops: {header: set(blocks)}"""
    order, state, back = [], {}, []
    st = [(F.blocks[0], iter(F.blocks[0].succs))]
    state[F.blocks[0]] = 1
    while st:
        b, it = st[-1]
        for s in it:
            c = state.get(s)
            if c == 1:
                back.append((b, s))
            elif c is None:
                state[s] = 1
                st.append((s, iter(s.succs)))
                break
        else:
            state[b] = 2
            order.append(b)
            st.pop()
    loops = {}
    for latch, h in back:
        body = loops.setdefault(h, {h})
        w = [latch]
        while w:
            x = w.pop()
            if x in body:
                continue
            body.add(x)
            w.extend(p for p in x.preds if p in state)
    out = {}
    for h, B in loops.items():
        if not any(h2 is not h and h in B2 for h2, B2 in loops.items()):
            out[h] = B
    return out


def unroll(F, K, limit=400000):
    n = 0
    while True:
        L = _loops(F)
        if not L:
            return n
        for h, B in L.items():
            _unroll_one(F, h, B, K)
            n += 1
        if sum(len(b.insts) for b in F.blocks) > limit:
            raise AnalysisError("unrolling %s exceeds the size limit" % F.name)


_id = [10 ** 6]


def _clone(I, blk):
    J = ir.Inst()
    for s in ("op", "ops", "pred", "callee", "line", "file", "incoming", "alloctype", "srctype", "indices", "targets",
              "cases", "fnvarargs", "type", "name"):
        setattr(J, s, getattr(I, s))
    _id[0] += 1
    J.id = _id[0]
    J.block = blk
    return J


def _unroll_one(F, h, B, K):
    body = [b for b in F.blocks if b in B]
    bmaps, vmaps = [], []
    for k in range(K):
        bm, vm = {}, {}
        for b in body:
            nb = ir.Block()
            nb.fn, nb.idx, nb.preds = F, len(F.blocks) + len(bm), []
            nb.name = (b.name or "bb") + ".u%d" % k
            nb.insts = []
            for I in b.insts:
                J = _clone(I, nb)
                nb.insts.append(J)
                vm[I] = J
            bm[b] = nb
        bmaps.append(bm)
        vmaps.append(vm)
        F.blocks.extend(bm[b] for b in body)
    ov = ir.Block()
    ov.fn, ov.idx, ov.preds, ov.name = F, len(F.blocks), [], "overflow"
    u = ir.Inst()
    for s in ir.Inst.__slots__ + ("type", "name"):
        setattr(u, s, None)
    u.op, u.ops, u.targets, u.block, u.name = "unreachable", [], (), ov, "overflow"
    _id[0] += 1
    u.id = _id[0]
    ov.insts = [u]
    F.blocks.append(ov)
    for k in range(K):
        bm, vm = bmaps[k], vmaps[k]

        def mv(v):
            return vm.get(v, v) if isinstance(v, ir.Inst) else v

        def mt(t):
            if t is h:
                return bmaps[k + 1][h] if k + 1 < K else ov
            return bm.get(t, t)
        for b in body:
            for J in bm[b].insts:
                if J.op == "phi":
                    if b is h:
                        inc = []
                        for v, p in J.incoming:
                            if p in B:
                                if k > 0:
                                    pv = vmaps[k - 1].get(v, v) if isinstance(v, ir.Inst) else v
                                    inc.append((pv, bmaps[k - 1][p]))
                            elif k == 0:
                                inc.append((v, p))
                        J.incoming = inc
                    else:
                        J.incoming = [(mv(v), bm.get(p, p)) for v, p in J.incoming]
                    J.ops = [v for v, _ in J.incoming]
                else:
                    J.ops = [mv(v) for v in J.ops]
                    if J.targets:
                        J.targets = type(J.targets)(mt(t) for t in J.targets)
                    if J.cases:
                        J.cases = [(c, mt(t)) for c, t in J.cases]
                    if isinstance(J.callee, ir.Inst):
                        J.callee = mv(J.callee)
    # outside: edges into the header, and phis of the exit blocks
    for b in F.blocks:
        if b in B:
            continue
        t = b.insts[-1]
        if t.targets and h in t.targets:
            t.targets = type(t.targets)(bmaps[0][h] if x is h else x for x in t.targets)
        if t.cases:
            t.cases = [(c, bmaps[0][h] if x is h else x) for c, x in t.cases]
        for J in b.insts:
            if J.op != "phi":
                break
            if any(p in B for _, p in J.incoming):
                inc = []
                for v, p in J.incoming:
                    if p in B:
                        for k in range(K):
                            inc.append((vmaps[k].get(v, v) if isinstance(v, ir.Inst) else v, bmaps[k][p]))
                    else:
                        inc.append((v, p))
                J.incoming = inc
                J.ops = [v for v, _ in inc]
    F.blocks = [b for b in F.blocks if b not in B]
    for b in F.blocks:
        b.preds = []
    for b in F.blocks:
        for s in b.succs:
            s.preds.append(b)
