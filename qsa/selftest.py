"""Positive examples: small sources the analysis must react to."""
import ast
import os
import tempfile

from .interp import Interp, Closure
from .entries import World
from .project import Project, Module
from .values import V


class Mini(Project):
    def __init__(self, src):
        import hashlib
        self.repo = "/"
        self.modules = {}
        self.digest = hashlib.sha256(src.encode())
        tree = ast.parse(src)
        for n in ast.walk(tree):
            n._mod = "m"
        self.modules["m"] = Module("m", "/m.py", tree, False)
        self.n_functions = 1


def world(src, terms=False):
    return World(terms=terms, project=Mini(src))


def kinds(src, types=None):
    w = world(src)
    it = w.it
    st = w.state()
    cv = it.lookup_public("m.f")
    fn = next(iter(cv.f)).func.node
    args = []
    nd = len(fn.args.defaults)
    names = [a.arg for a in fn.args.args]
    for n in names[:len(names) - nd]:
        if n == "c":
            from .values import O
            st.heap[("in", n)] = O("inst", attrs={}, origin="input:" + n)
            args.append(V(r=frozenset([("in", n)])))
        else:
            args.append(w.array(st, n, 1))
    v = it.call(cv, args, {}, st, w.node("entry"))
    out = set()
    for e in it.events:
        out.add(e.kind)
        if e.kind == "mutate":
            out.add("mutate:" + str(e.data["origin"]))
    for oid in it.reach(st, v):
        o = st.heap.get(oid)
        if o is not None and o.kind == "region":
            out.add("alias:" + str(o.origin))
    for x in it.deps(st, v):
        out.add("dep:" + str(x))
    return out
