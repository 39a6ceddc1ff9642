"""Small C wrappers around library entry points, specialised to straight-line code and value-numbered.

Every array a wrapper passes is a distinct extern global named <wrapper>_<array>; its elements are the
variables (array, element index)."""
import os
from concurrent.futures import ThreadPoolExecutor

import front
import geval
import ir
import terms
from front import AnalysisError
from terms import Poly, var


def build(name, wrappers, srcs=None, prelude="", nch=8, extra=()):
    """wrappers: [(fname, C text)] -> {fname: ir.Function}.  srcs: library sources linked in."""
    lib = front.compile_all(srcs) if srcs else []
    nch = max(1, min(nch, len(wrappers)))
    chunks = [wrappers[k::nch] for k in range(nch)]

    def one(ci):
        p = os.path.join(front.scratch(), "%s_%d.c" % (name, ci))
        with open(p, "w") as f:
            f.write(prelude + "\n" + "\n".join(t for _, t in chunks[ci]))
        w = front.compile_bc(p, extra=extra)
        return front.specialise(lib + [w], [n for n, _ in chunks[ci]], "%s_%d" % (name, ci))
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, range(nch)))
    res = {}
    for ci, o in enumerate(outs):
        m = ir.Module(o)
        for n, _ in chunks[ci]:
            f = m.functions.get(n)
            if f is None or f.decl:
                raise AnalysisError("no IR for wrapper " + n)
            res[n] = f
    return res


class Sum:
    def __init__(self, fn_, prefix, init=None, elem=8, opaque_calls=None, unroll_by=0):
        self.pre = prefix
        if unroll_by:
            import unroll
            unroll.unroll(fn_, unroll_by)

        def il(base, off, t):
            if init is not None:
                v = init(base, off, t)
                if v is not None:
                    return v
            if isinstance(base, tuple) and base[0] == "global" and base[1].startswith(prefix):
                n = base[1][len(prefix):]
                c = off.const()
                if c is None or c % t.size:
                    return var("outside", n, off, t.size)
                if t.kind == "ptr":
                    return None
                if t.size == elem or t.kind == "int":
                    return var(n, int(c) // t.size)
                return var("narrow", n, int(c), t.size)
            return None
        self.ev = geval.Eval(fn_, [], init_load=il, opaque_calls=opaque_calls)

    def at(self, name, i, elem=8):
        e = self.ev.retmem.get((("global", self.pre + name), terms.P(i * elem)))
        if e is None or e[1] != elem or not isinstance(e[0], Poly):
            return None
        return e[0]

    def out(self, name, n, elem=8):
        return [self.at(name, i, elem) for i in range(n)]

    def written(self, name):
        """Byte offsets (terms) of everything written to an array"""
        return [(a.off, a.size, a) for a in self.ev.accesses if a.kind == "store" and a.base == ("global", self.pre + name)]

    def wild(self):
        return [a for a in self.ev.accesses if a.base == "null" or (isinstance(a.base, tuple) and a.base[0] in ("*", "val"))]

    def overflowed(self):
        """Did some loop run more often than it was unrolled?"""
        return any(b.name == "overflow" and self.ev.reach.get(b, terms.BDD.F) is not terms.BDD.F for b in self.ev.fn.blocks)
