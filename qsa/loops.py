"""Closed forms for loops and comprehensions (value numbering).

A loop over a range (or an array, enumerate, zip) whose iterations do not
depend on each other stores, for every element, one slice of an array: the
array after the loop is described by the stored value with the loop variable
replaced by the index.  Independence is checked on terms: in an iteration
that starts from unknown array contents, every read of an array the loop
writes is of the slice that this very iteration stores."""
import ast

from . import terms as tm
from .values import EMPTY, O, V, const


def element(it, st, v, i, node):
    """(number of elements, element i) of what a loop runs over, or None"""
    if len(v.r) != 1 or v.c or v.t or v.f:
        return None
    o = st.heap.get(next(iter(v.r)))
    if o is None:
        return None
    if o.kind == "range":
        lo, hi, step = o.extra
        if lo.s is None or hi.s is None or step.s is None or \
                step.s.rational != 1:
            return None
        return hi.s - lo.s, V(t=frozenset(["int"]), d=v.d | lo.d,
                              s=lo.s + i)
    if o.kind == "array":
        if not o.rank or not o.shape or o.shape[0] is None:
            return None
        x = it.models.array_get(st, v, o, V(t=frozenset(["int"]), s=i), node)
        return o.shape[0], x
    if o.kind in ("list", "tuple") and isinstance(o.extra, tuple) and \
            o.extra and o.extra[0] == "lam1" and o.extra[2] is not None:
        return o.extra[2], V(t=o.rest.t or frozenset(["num"]),
                             d=v.d | o.rest.d, s=o.extra[1]((i,)))
    if o.kind == "iter" and o.extra[0] == "enumerate":
        r = element(it, st, o.items[0], i, node)
        start = o.items[1].s
        if r is None or start is None:
            return None
        k = V(t=frozenset(["int"]), s=start + i)
        return r[0], it.new(st, O("tuple", items=(k, r[1])), node, "en")
    if o.kind == "iter" and o.extra[0] == "zip":
        rs, ctx = [], it.ctx
        for j, x in enumerate(o.items):
            it.ctx = ctx + (("of", j),)
            rs.append(element(it, st, x, i, node))
        it.ctx = ctx
        if not rs or None in rs or any(r[0] is not rs[0][0] for r in rs):
            return None
        return rs[0][0], it.new(st, O("tuple", items=tuple(
            r[1] for r in rs)), node, "zp")
    return None


def summarize(it, s, iterable, pre, post, bind, body):
    if not it.terms or it.in_fix or it.in_comp > it.nested or \
            it.nested > 1:
        return
    arrays, numbers, lists = [], [], []
    for rid, reg in pre.heap.items():
        new = post.heap.get(rid)
        if reg.kind == "region" and new is not None and \
                reg.content is not None and new.content is None and \
                reg.rank and not reg.weak:
            arrays.append(rid)
        elif reg.kind == "list" and reg.items == () and not reg.weak and \
                new is not None and new.kind == "list" and \
                new.items is None and not new.extra:
            lists.append(rid)
    for k, v in pre.loc.items():
        new = post.loc.get(k)
        if new is not None and v.s is not None and new.s is None and \
                not (new.r or new.f or v.r or v.f):
            numbers.append(k)
    if not arrays and not numbers and not lists:
        return
    i = tm.bvar()
    tm.bound(i, 0)
    try:
        Loop(it, s, iterable, pre, post, bind, body, arrays, numbers,
             lists, i).close()
    except tm.TooBig:
        return


class Loop(object):
    """what a loop leaves in the arrays and numbers it changes"""

    def __init__(self, it, s, iterable, pre, post, bind, body, arrays,
                 numbers, lists, i):
        self.it, self.s, self.iterable, self.pre, self.post = \
            it, s, iterable, pre, post
        self.bind, self.body, self.i = bind, body, i
        self.probes = {}
        for rid in arrays:
            self.probes[rid] = tm.arr(fresh(), pre.heap[rid].dtype in (
                "float", "int", "bool"))
        for k in numbers:
            v = pre.loc[k]
            self.probes[k] = tm.as_base(tm.atom(
                fresh(), v.s.real and not v.t & {"complex", "any"}))
        self.arrays, self.numbers, self.lists = arrays, numbers, lists

    def close(self):
        start = {rid: (lambda ix, a=self.probes[rid]: tm.sel(a, ix))
                 for rid in self.arrays}
        start.update((k, tm.lift(self.probes[k])) for k in self.numbers)
        r = self.once(start)
        if r is None:
            return
        n, end = r
        where = {p: None for p in self.probes.values()}
        total, same = {}, set()
        for k in self.numbers:
            t = end.get(k)
            t = None if t is None else t - start[k]
            if t is not None and not any(
                    tm.contains(t, [p]) for p in self.probes.values()):
                total[k] = t
        for rid in self.arrays:
            c, p = end.get(rid), self.probes[rid]
            if c is start[rid]:
                same.add(rid)
                continue
            if c is None:
                continue
            ks = tuple(tm.bvar() for _ in range(self.pre.heap[rid].rank))
            for k in ks:
                tm.bound(k, 0)
            t = c(ks)
            where[p] = slot(t, ks, p, self.i)
            if where[p] is None:
                t = t - tm.sel(p, ks)
                if not any(tm.contains(t, [q])
                           for q in self.probes.values()):
                    total[rid] = ks, t
        for k, t in total.items():
            if k in self.numbers:
                v, w = self.pre.loc[k], self.post.loc[k]
                self.post.loc[k] = V(t=w.t or frozenset(["num"]), d=w.d,
                                     s=v.s + self.sum(t, n))
                continue
            ks, t = t
            self.store(k, self.sum(t, n), ks, None)
        for rid, part in self.grown.items():
            self.listed(rid, part, n)
        slots = [rid for rid in self.arrays
                 if where[self.probes[rid]] is not None
                 and private(where[self.probes[rid]], where)]
        if not slots:
            return
        start = {rid: self.pre.heap[rid].content for rid in self.arrays}
        r = self.once(start)
        if r is None:
            return
        for rid in slots:
            if r[1].get(rid) is None:
                continue
            ks, ax, at, _ = where[self.probes[rid]]
            t = tm.subst(r[1][rid](ks), {tm.as_base(self.i): at})
            shape = self.pre.heap[rid].shape
            inside = tm.num(1)
            if not (at is ks[ax] and shape and shape[ax] is n):
                inside = tm.ge0(at) * tm.gt0(n - at)
            self.store(rid, t, ks, inside)

    def sum(self, t, n):
        b = tm.as_base(self.i)
        if b not in t._fv:
            return t * n * tm.ge0(n)
        k = tm.bvar()             # (the bound of i is part of the sum)
        t = tm.subst(t, {b: k})
        return tm.sum_over(tm.as_base(k), t * tm.ge0(k) * tm.gt0(n - k))

    def listed(self, rid, part, n):
        """a list that was empty gets one element per iteration"""
        rk, c, sh = part[:3]
        b = tm.as_base(self.i)
        if rk is None or c is None or rk and (
                not sh or any(x is None or b in x._fv for x in sh)):
            return
        ks = tuple(tm.bvar() for _ in range(rk))
        t = c(ks)
        if any(tm.contains(t, [q]) for q in self.probes.values()):
            return

        def g(ix):
            mp = {tm.as_base(k): x for k, x in zip(ks, ix[1:])}
            mp[b] = ix[0]
            return tm.subst(t, mp)
        a = tm.lam(1 + rk, g)
        f = (lambda ix: tm.sel(a, ix))
        o = self.post.heap[rid]
        self.post.heap[rid] = o.rep(extra=("lam1", f, n) if rk == 0 else (
            "lam", f, (n,) + tuple(sh)))

    def store(self, rid, t, ks, inside):
        """new contents: t (a function of the indices ks) where the iteration
        exists; without ``inside``: the old ones and t"""
        def fn(p):
            return tm.lam(len(ks), lambda ix: tm.subst(
                p, {tm.as_base(k): x for k, x in zip(ks, ix)}))
        a = fn(t)
        reg = self.post.heap[rid]
        old = self.pre.heap[rid].content
        if inside is None:
            def c(ix):
                return old(ix) + tm.sel(a, ix)
        elif inside is tm.num(1):
            def c(ix):
                return tm.sel(a, ix)
        else:
            g = fn(inside)

            def c(ix):
                return tm.phi(tm.sel(g, ix), tm.sel(a, ix), old(ix))
        self.post.heap[rid] = reg.rep(content=c)

    def once(self, start):
        """(number of iterations, contents and numbers after iteration i that
        starts with the given ones), or None"""
        it, pre, post = self.it, self.pre, self.post
        st = pre.copy()
        for k, v in post.loc.items():
            w = st.loc.get(k)
            if w is None:
                continue
            if k in start:
                st.loc[k] = V(t=v.t or frozenset(["num"]), d=v.d, s=start[k])
            elif w != v:
                st.loc[k] = v
        for rid, o in post.heap.items():
            p = st.heap.get(rid)
            if rid in self.lists:
                continue
            if rid in start:
                st.heap[rid] = p.rep(content=start[rid])
            elif p is not o:
                st.heap[rid] = o
        pc0, ctx0 = it.pc, it.ctx
        it.in_comp += 1
        it.nested += 1
        it.frames.append(("loop", EMPTY, it.nid(self.s), True, False))
        try:
            it.ctx = ctx0 + (("it", it.nid(self.s), "any"),)
            r = element(it, st, self.iterable, self.i, self.s)
            if r is None:
                return None
            self.bind(st, r[1])
            fl = it.block(self.body, st)
        finally:
            it.frames.pop()
            it.pc, it.ctx = pc0, ctx0
            it.in_comp -= 1
            it.nested -= 1
        cur = fl.next
        for c in fl.cont:
            cur = c if cur is None else it.join_path(cur, c)
        if cur is None:
            return None
        end, self.grown = {}, {}
        for rid in self.lists:
            o = cur.heap.get(rid)
            if o is not None and o.items is not None and len(o.items) == 1:
                self.grown[rid] = it.models.arr_parts(cur, o.items[0])
        for k in start:
            if k in self.numbers:
                v = cur.loc.get(k)
                end[k] = None if v is None or v.r or v.f else v.s
            else:
                end[k] = cur.heap[k].content if k in cur.heap else None
        return r[0], end


def fresh():
    """a name no program term has"""
    PROBES.append(None)
    return "before the iteration #%d" % len(PROBES)


PROBES = []


def slot(t, ks, probe, i):
    """(indices, axis, iteration as a function of the indices, value): t
    differs from the unknown contents in one slice only"""
    ib = tm.as_base(i)
    for b in tm.subterms(t):
        if not isinstance(b, tm.T) or b.op != "br" or b.args[0] != "eq" or \
                ib not in b._fv:
            continue
        at = solve(b.args[1], i)
        if at is None:
            continue
        hit = [x for x, k in enumerate(ks) if tm.as_base(k) in at._fv]
        if len(hit) != 1 or ib in at._fv:
            continue
        other = tm.subst(t, {b: tm.num(0)})
        if other is tm.sel(probe, ks):
            return ks, hit[0], at, tm.subst(t, {ib: at})
    return None


def solve(p, i):
    """i from p = 0, if p = +-(i - ...)"""
    ib = tm.as_base(i)
    zero = tm.subst(p, {ib: tm.num(0)})
    rest = p - zero
    if rest is i:
        return -zero
    if rest is -i:
        return zero
    return None


def private(where, slots):
    """the value stored depends only on what the iteration itself stores"""
    ks, ax, at, value = where
    seen = set()
    stack = [value]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, tm.P):
            stack.extend(b for m, _ in x.terms for b, _e in m)
            continue
        if isinstance(x, tuple):
            stack.extend(z for z in x if isinstance(z, (tm.P, tm.T, tuple)))
            continue
        if x in slots:
            return False
        if x.op == "sel" and x.args[0] in slots:
            w = slots[x.args[0]]
            if w is None:
                return False
            k2, a2, at2, _ = w
            if tm.subst(at2, {tm.as_base(k2[a2]): x.args[1][a2]}) is not at:
                return False
            stack.extend(x.args[1])
            continue
        stack.extend(a for a in x.args
                     if isinstance(a, (tm.P, tm.T, tuple)))
    return True


def comp_content(it, e, st, v):
    """a list of one number per element"""
    if not it.terms or it.in_fix or it.in_comp or len(e.generators) != 1 \
            or e.generators[0].ifs:
        return
    g = e.generators[0]
    i = tm.bvar()
    tm.bound(i, 0)
    st2 = st.copy()
    scope = ("comp", it.nid(e), it.ctx)
    save, ctx0, pc0 = it.cur, it.ctx, it.pc
    it.scopes[scope] = it.cur
    it.in_comp += 1
    try:
        source = it.ev(g.iter, st2)
        it.cur = scope
        it.ctx = ctx0 + (("it", it.nid(g), "any"),)
        r = element(it, st2, source, i, e)
        if r is None:
            return
        it.assign(g.target, r[1], st2)
        x = it.ev(e.elt, st2)
    except tm.TooBig:
        return
    finally:
        it.cur, it.ctx, it.pc = save, ctx0, pc0
        it.in_comp -= 1
    for rid, o in st.heap.items():
        if o.kind == "region" and rid in st2.heap and \
                st2.heap[rid].content is not o.content:
            return
    part = it.models.arr_parts(st2, x)
    if part[0] is None or part[1] is None or part[0] and not part[2]:
        return
    rk = part[0]
    try:
        body = tm.lam(1 + rk, lambda ix: tm.subst(
            part[1](ix[1:]), {tm.as_base(i): ix[0]}))
    except tm.TooBig:
        return
    oid = next(iter(v.r))
    o = st.heap[oid]
    f = (lambda ix: tm.sel(body, ix))
    if rk == 0:
        st.heap[oid] = o.rep(extra=("lam1", f, r[0]))
    elif all(n is not None and not tm.contains(n, [tm.as_base(i)])
             for n in part[2]):
        st.heap[oid] = o.rep(extra=("lam", f, (r[0],) + tuple(part[2])))


def counter(s):
    """(name, limit) of  while name < limit: ...; name += 1  where nothing
    else changes the two"""
    t, last = s.test, s.body[-1]
    if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or \
            len(s.body) < 2:
        return None
    a, b = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt):
        a, b = b, a
    elif not isinstance(t.ops[0], ast.Lt):
        return None
    if not isinstance(a, ast.Name) or not isinstance(last, ast.AugAssign) or \
            not isinstance(last.op, ast.Add) or \
            not isinstance(last.target, ast.Name) or \
            last.target.id != a.id or \
            not isinstance(last.value, ast.Constant) or \
            last.value.value != 1 or isinstance(last.value.value, bool):
        return None
    fixed = {a.id}
    for n in ast.walk(b):
        if isinstance(n, ast.Name):
            fixed.add(n.id)
        elif isinstance(n, ast.Call) and not (
                isinstance(n.func, ast.Name) and n.func.id == "len"):
            return None
        elif isinstance(n, ast.Attribute) and n.attr not in (
                "size", "shape"):
            return None
    for x in s.body[:-1]:
        for n in ast.walk(x):
            if isinstance(n, (ast.Break, ast.Continue, ast.Lambda,
                              ast.FunctionDef, ast.Global, ast.Nonlocal,
                              ast.Delete, ast.NamedExpr)):
                return None
            if isinstance(n, ast.Name) and n.id in fixed and \
                    not isinstance(n.ctx, ast.Load):
                return None
            if isinstance(n, ast.Attribute) and n.attr in (
                    "append", "extend", "pop", "insert", "remove", "clear",
                    "resize"):
                return None
    return a, b


def counted(it, s, st):
    """a counting while loop is a loop over a range"""
    r = counter(s)
    if r is None:
        return None
    name, limit = r
    lo, hi = it.ev(name, st), it.ev(limit, st)
    if lo.s is None or hi.s is None or not lo.s.integer or \
            not hi.s.integer or lo.r or hi.r:
        return None
    rng = it.new(st, O("range", extra=(lo, hi, const(1))), s, "while")
    body = s.body[:-1]

    def bind(x, e):
        it.assign(ast.copy_location(ast.Name(name.id, ast.Store()), name),
                  e, x)
    out = it.loop_over(s, rng, st, bind, body, [])
    if out.next is not None:
        n = hi.s - lo.s
        v = V(t=frozenset(["int"]), d=lo.d | hi.d,
              s=lo.s + n * tm.ge0(n))
        if v.s.rational is not None:
            v = const(int(v.s.rational), v.d)
        bind(out.next, v)
    return out
