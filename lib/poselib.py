"""Value-numbered summaries of the pose functions."""
import os

import front
import geval
import ir
import posespec
import terms
from front import AnalysisError
from posespec import SPEC, contiguous, indices, size
from terms import BDD, P, Poly, ZERO, atoms_of, var

SRCS = ["poseutils.c", "poseutils-uses-autodiff.cc", "poseutils-opencv.c"]


class Req:
    """One wrapper to build"""

    def __init__(self, fname, flags, null=(), alias=None, strides="default"):
        self.fname, self.flags, self.null, self.alias, self.strides = fname, flags, tuple(null), dict(alias or {}), strides
        self.spec = SPEC[fname]

    def label(self):
        s = self.fname.replace("mrcal_", "").replace("_full", "")
        fl = [k for k, v in self.flags.items() if v]
        if fl:
            s += "[" + ",".join(fl) + "]"
        if self.null:
            s += " without " + ",".join(self.null)
        if self.alias:
            s += " in-place " + ",".join("%s=%s" % x for x in self.alias.items())
        return s


def build(reqs, name, srcs=None):
    """Compile the requests' wrappers with the library; yields (req, wrapper function)."""
    srcs = srcs or [s for s in front.lib_sources() if s.startswith("poseutils")]
    lib = front.compile_all(srcs)
    from concurrent.futures import ThreadPoolExecutor
    nch = 8
    order = sorted(range(len(reqs)), key=lambda i: reqs[i].fname)
    chunks = [[] for _ in range(nch)]
    for k, i in enumerate(order):
        chunks[k % nch].append(i)

    def one(ci):
        idxs = chunks[ci]
        if not idxs:
            return None
        txt = '#include <stdbool.h>\n#include <stddef.h>\n#include "poseutils.h"\n'
        for i in idxs:
            r = reqs[i]
            txt += posespec.wrapper(r.fname, "w%d" % i, r.flags, r.null, r.alias, r.strides)
        p = os.path.join(front.scratch(), "%s_%d.c" % (name, ci))
        with open(p, "w") as f:
            f.write(txt)
        w = front.compile_bc(p)
        return front.specialise(lib + [w], ["w%d" % i for i in idxs], "%s_%d" % (name, ci))
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, range(nch)))
    res = {}
    for ci, o in enumerate(outs):
        if o is None:
            continue
        m = ir.Module(o)
        for i in chunks[ci]:
            f = m.functions.get("w%d" % i)
            if f is None or f.decl:
                raise AnalysisError("no IR for " + reqs[i].label())
            res[i] = f
    return [(reqs[i], res[i]) for i in range(len(reqs))]


class Summary:
    """Terms of every output element of one wrapper; inputs are ("in", array, flat index) variables"""

    def __init__(self, req, fn_, wi):
        self.req = req
        pre = "w%d_" % wi
        self.pre = pre
        self.shapes = {a[1]: a[2] for a in req.spec["args"] if a[0] != "flag"}
        self.bad = []

        def init(base, off, t):
            if isinstance(base, tuple) and base[0] == "global" and base[1].startswith(pre):
                n = base[1][len(pre):]
                if n.startswith("S_"):
                    return var("stride", n[2:])
                if n in self.shapes:
                    i = self.index_of(n, off)
                    if i is None:
                        return var("outside", n, off)
                    if t.size != 8:
                        return var("narrow", n, i, t.size)
                    return var(self.canon(n), i)
            return None
        self.canon = lambda n: n
        self.ev = geval.Eval(fn_, [], init_load=init)
        self.pre_n = len(pre)

    def strides_of(self, n):
        s = self.req.strides
        if s == "default":
            return contiguous(self.shapes[n])
        if isinstance(s, dict):
            st = s[n]
            return st if all(x > 0 for x in st) else contiguous(self.shapes[n])
        return None

    def index_of(self, n, off):
        st = self.strides_of(n)
        c = off.const()
        if st is None:
            return ("off", off)
        if c is None:
            return None
        for k, ix in enumerate(indices(self.shapes[n])):
            if sum(i * s for i, s in zip(ix, st)) == c:
                return k
        return None

    def out(self, n):
        """Flat list of terms of the array n at return (None where never written)"""
        st = self.strides_of(n)
        store = self.req.alias.get(n, n)
        res = []
        for ix in indices(self.shapes[n]):
            off = P(sum(i * s for i, s in zip(ix, st)))
            e = self.ev.retmem.get((("global", self.pre + store), off))
            if e is None and store != n:
                res.append(var(store, len(res)))        # untouched: still holds the aliased input
                continue
            res.append(None if e is None or e[1] != 8 or not isinstance(e[0], Poly) else e[0])
        return res


def summarise(reqs, name):
    """[(req, Summary)].  Inputs are variables named (array, index); an aliased output array reads and
    writes the storage of its alias."""
    out = []
    for i, (r, f) in enumerate(build(reqs, name)):
        out.append((r, Summary(r, f, i)))
    return out
