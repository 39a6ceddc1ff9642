"""C20: Python functions leave their arguments alone; a cameramodel shares no storage with its user (lib/pyalias)."""
import os

import front
import pyalias

# objects documented as modified in place
IN_PLACE = {
    ("ingest_packed_state", "optimization_inputs"): "stores the packed state into the given dictionary",
    ("make_perfect_observations", "optimization_inputs"): "replaces the observed pixels in the given dictionary",
    ("annotate_image__valid_intrinsics_region", "image"): "draws into the given image",
}


def package():
    return pyalias.Package(os.path.join(front.REPO, "mrcal"))


def public(F):
    return not F.name.startswith("_") or F.name in ("__init__", "__str__", "__repr__")


def c20(ctx):
    ctx.rule("no public function of the Python package may change an object reachable from its arguments, other than out=, the object a "
             "method is called on, and arguments documented as modified in place; followed through local names, views, containers, loops "
             "and calls within the package")
    ctx.rule("no method of cameramodel may store an argument, or anything inside it, into the object without copying it, or return "
             "something inside the object without copying it")
    P = package()
    n = 0
    for F in P.functions():
        if not public(F):
            continue
        n += 1
        ctx.count("functions")
        e = P.entry(F)
        for p in F.params():
            ctx.count("arguments")
            if p == "out" or F.cls and F.pos and p == F.pos[0] or (F.name, p) in IN_PLACE:
                continue
            for r in ("p:" + p, "p:" + p + "."):
                if r in e.mut:
                    f, line, how = e.mut[r]
                    ctx.violation("C20:%s:%s:%s" % (F.mod.name, F.qual(), p), "%s(): the caller's argument '%s' is changed at %s:%s (%s)" % (
                        F.qual(), p, f, line, how))
                    break
        if F.cls and F.pos:
            me = "p:" + F.pos[0]
            for (c, r, field), (f, line, txt) in sorted(e.captured.items()):
                if c.rstrip(".") == me:
                    ctx.violation("C20:%s:%s:keeps:%s:%s" % (F.mod.name, F.qual(), r[2:].rstrip("."), field),
                                  "%s(): the object keeps (part of) the caller's argument '%s' without a copy: %s:%s %s" % (
                                      F.qual(), r[2:].rstrip("."), f, line, txt))
            ctx.count("methods")
            if me + "." in e.ret.all():
                ctx.violation("C20:%s:%s:returns" % (F.mod.name, F.qual()), "%s(): returns (part of) the object's own data without a copy" % F.qual())
    ctx.count("statements", P.steps)
    ctx.require("functions", 120)
