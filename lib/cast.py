"""Clang's syntax trees of the C and C++ sources (JSON), reduced to the functions written in this repository."""
import json
import os
import subprocess
from concurrent.futures import ProcessPoolExecutor

import front


class Fn:
    __slots__ = ("name", "params", "body", "file", "line", "node", "src")


def _loc(n, st):
    """Clang omits the file and line of a location when they repeat those of the last one it printed"""
    def one(l):
        if not isinstance(l, dict):
            return
        for k in ("spellingLoc", "expansionLoc"):
            if k in l:
                one(l[k])
        if "file" in l:
            st[0] = l["file"]
        if "line" in l:
            st[1] = l["line"]
    one(n.get("loc"))
    a = tuple(st)
    r = n.get("range") or {}
    one(r.get("begin"))
    b = tuple(st)
    one(r.get("end"))
    return a if n.get("loc") else b


def _annotate(n, st):
    n["_at"] = _loc(n, st)
    for c in n.get("inner", ()):
        if c:
            _annotate(c, st)


KEEP = {"DeclRefExpr", "MemberExpr", "IntegerLiteral", "FloatingLiteral", "StringLiteral"}


def _tree(a):
    src, d, flags = a
    cc = front.CLANGXX if src.endswith((".cc", ".cpp")) else front.CLANG
    r = subprocess.run([cc] + flags + ["-fsyntax-only", "-Xclang", "-ast-dump=json", src], cwd=d, capture_output=True, text=True)
    if r.returncode:
        raise front.AnalysisError("front end failed on %s:\n%s" % (src, r.stderr[-2000:]))
    import sys
    sys.setrecursionlimit(100000)
    J = json.loads(r.stdout)
    st = [src, 0]
    protos, fns, fields = {}, [], {}
    root = J.get("inner", ())

    def walk(ns):
        for n in ns:
            if not n:
                continue
            _annotate(n, st)
            collect(n)

    def collect(n):
        k = n.get("kind")
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
            ps = [p.get("name") for p in n.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
            body = [p for p in n.get("inner", ()) if p.get("kind") == "CompoundStmt"]
            f = n["_at"][0]
            own = not os.path.isabs(f)
            if own or all(ps) and ps:
                if not (n["name"] in protos and protos[n["name"]][1] and not own):
                    if body or n["name"] not in protos:
                        protos[n["name"]] = (ps, own, n["type"]["qualType"])
            if body and own:
                fns.append((n["name"], ps, body[0], n["_at"]))
        elif k in ("LinkageSpecDecl", "NamespaceDecl", "FunctionTemplateDecl", "CXXRecordDecl", "ClassTemplateDecl"):
            for c in n.get("inner", ()):
                collect(c)
    walk(root)
    return src, protos, fns


_cache = {}


def trees(srcs):
    """[(source, {function: (parameter names, declared here?, type)}, [(name, parameter names, body, location)])]"""
    key = tuple(srcs)
    if key not in _cache:
        d = front.srcdir()
        for s in srcs:
            if s.endswith("-npsp-pywrap-GENERATED.c"):
                front.npsp_source(s[:-len("-npsp-pywrap-GENERATED.c")])
        args = [(s, d, [x for x in front.cflags(s) if x not in ("-fno-math-errno",)]) for s in srcs]
        with ProcessPoolExecutor(min(8, len(srcs))) as ex:
            _cache[key] = list(ex.map(_tree, args))
    return _cache[key]


def walk(n):
    yield n
    for c in n.get("inner", ()):
        if c:
            yield from walk(c)


def strip(e):
    """Without parentheses and implicit or explicit casts"""
    while e and e.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "ConstantExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr",
                                  "ExprWithCleanups", "MaterializeTemporaryExpr"):
        inner = [c for c in e.get("inner", ()) if c]
        if not inner:
            return e
        e = inner[-1]
    return e


def name_of(e):
    """The identifier an expression ends in: x, s.x, p->x, *x, &x, x[i]"""
    e = strip(e)
    if not e:
        return None
    k = e.get("kind")
    if k == "DeclRefExpr":
        return e["referencedDecl"].get("name")
    if k == "MemberExpr":
        return e.get("name")
    if k == "UnaryOperator" and e.get("opcode") in ("*", "&"):
        return name_of(e["inner"][0])
    return None


def callee(e):
    f = strip(e["inner"][0])
    if f and f.get("kind") == "DeclRefExpr":
        return f["referencedDecl"].get("name")
    return None
