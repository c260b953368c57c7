"""Abstract interpreter over the Python AST of the analysed package.

Forward, interprocedural (calls are inlined with their calling context), with
joins at merges and fixpoints at loops.  See values.py for the domain.
"""
import ast
import itertools
import sys
from fractions import Fraction

from . import terms as tm
from .liveness import loop_temps
from .project import Project, Func, resolve_import, AnalysisBroken
from .values import (V, O, State, BOT, NONE, UNB, UNBOUND, TRUEV, FALSEV,
                     EMPTY, const, ck, unk, scalar, join, joinall,
                     join_states, join_obj)

sys.setrecursionlimit(20000)
MAXUNROLL = 24
MAXDEPTH = 40


class Flow(object):
    __slots__ = ("next", "rets", "brk", "cont", "raises", "xret", "xloop")

    def __init__(self, nxt=None):
        self.next = nxt
        self.rets = []        # (State, V)
        self.brk = []         # State
        self.cont = []        # State
        self.raises = []      # (State, exception name)
        self.xret = EMPTY     # labels deciding an early return
        self.xloop = EMPTY    # labels deciding an early break/continue


class Event(object):
    __slots__ = ("kind", "node", "func", "pc", "data", "ctx", "entry")

    def __init__(self, kind, node, func, pc, data, ctx):
        self.kind, self.node, self.func = kind, node, func
        self.pc, self.data, self.ctx = pc, data, ctx


class Closure(object):
    """user function value"""
    __slots__ = ("func", "defaults", "kwdefaults", "scope", "nid")

    def __init__(self, func, defaults, kwdefaults, scope, nid):
        self.func, self.defaults, self.kwdefaults = func, defaults, kwdefaults
        self.scope, self.nid = scope, nid

    def key(self):
        return (self.nid, self.scope)

    def __eq__(self, o):
        return isinstance(o, Closure) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "fn:%s" % self.func.qual


class ClassInfo(object):
    def __init__(self, name, qual, node, module, bases):
        self.name, self.qual, self.node = name, qual, node
        self.module, self.bases = module, bases
        self.members = {}         # name -> V
        self.props = {}           # name -> Closure
        self.static = set()
        self.clsm = set()

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.members:
                return c, c.members[name]
        return None, None

    def prop(self, name):
        for c in self.mro():
            if name in c.props:
                return c.props[name]
            if name in c.members:
                return None
        return None

    def __repr__(self):
        return "<class %s>" % self.qual


class Interp(object):
    def __init__(self, project=None, modelled=True):
        self.p = project or Project()
        self.events = []
        self.watched = None       # reads of option tables, if recorded
        self._evkeys = set()
        self.pc = EMPTY
        self.frames = []          # pc frames (kind, deps, node, branch)
        self.stack = []           # Func stack
        self.ctx = ()
        self.modstate = {}        # module -> "done"/"busy"
        self.scopes = {}          # scope id -> parent scope id
        self.base = State()
        self.facts = {}           # base term / P -> (lo, hi) interval
        self.unsupported = {}
        self.n_stmts = 0
        self.funcs_seen = set()
        self.calls_seen = 0
        self.classes = {}
        self.record = True
        self.guard_hits = []      # undecided conditions met (for C09)
        self.string_in = {}
        self._nid = itertools.count()
        from . import models
        self._names = {}
        self.models = models.Models(self)

    # ------------------------------------------------------------ utilities
    def fresh_name(self, what):
        """name of a value the analysis does not look into; terms with such
        names are never reported as different"""
        return "?%s%d" % (what, next(self._nid))

    def name_of(self, o, what):
        """the same, once per version of an object"""
        k = id(o)
        if k not in self._names:
            self._names[k] = (o, self.fresh_name(what))
        return self._names[k][1]

    def nid(self, node):
        n = getattr(node, "_nid", None)
        if n is None:
            n = node._nid = next(self._nid)
        return n

    def event(self, kind, node, **data):
        if not self.record:
            return
        func = self.stack[-1].qual if self.stack else "<module>"
        key = (kind, self.nid(node), self.ctx,
               tuple(sorted((k, repr(v)) for k, v in data.items())),
               tuple(f[:2] for f in self.frames))
        if key in self._evkeys:
            return
        self._evkeys.add(key)
        self.events.append(Event(kind, node, func, tuple(self.frames), data,
                                 self.ctx))

    def unsup(self, what, node):
        self.unsupported.setdefault(what, node)

    def alloc(self, st, obj, node, tag=""):
        oid = (self.ctx, self.nid(node), tag + self.tagx)
        old = st.heap.get(oid)
        if old is not None and self.in_fix:
            obj = obj.rep(weak=True)
        st.heap[oid] = obj
        return oid

    tagx = ""

    def each(self, refs):
        """the refs one by one; what is allocated for each stays apart"""
        if len(refs) < 2:
            yield from refs
            return
        old = self.tagx
        try:
            for k, r in enumerate(sorted(refs, key=str)):
                self.tagx = old + "#%d" % k if k else old
                yield r
        finally:
            self.tagx = old

    in_fix = 0
    terms = True          # track array contents (value numbering)
    want_index = False    # record index expressions of array reads
    flags_ok = False
    assume_nonempty = True

    def new(self, st, obj, node, tag="", d=EMPTY):
        return V(r=frozenset([self.alloc(st, obj, node, tag)]), d=d)

    # arrays ---------------------------------------------------------------
    def new_array(self, st, node, content=None, rank=None, deps=EMPTY,
                  shape=None, dtype=None, tag="", origin="fresh", d=EMPTY):
        deps = deps | self.pc
        if not self.terms:
            content = None
        tag += self.tagx
        rid = (self.ctx, self.nid(node), "R" + tag)
        if shape is not None and rank is None:
            rank = len(shape)
        st.heap[rid] = O("region", content=content, rank=rank, deps=deps,
                         dtype=dtype, origin=origin, shape=shape)
        o = O("array", bases=frozenset([rid]), rank=rank, deps=EMPTY,
              view=_ident, shape=shape, origin=origin)
        oid = (self.ctx, self.nid(node), "A" + tag)
        st.heap[oid] = o
        return V(r=frozenset([oid]), d=d)

    def array_obj(self, st, v):
        """the single array object of v (and nothing else) or None"""
        if len(v.r) == 1 and not (v.c or v.t or v.f):
            o = st.heap.get(next(iter(v.r)))
            if o is not None and o.kind == "array":
                return o
        return None

    def content(self, st, o):
        """content closure of array object o at this state, or None"""
        if o.content is not None:          # snapshot
            for rid, c in o.extra[1]:
                if st.heap[rid].content is not c:
                    return None
            return o.content
        if o.view is None or len(o.bases) != 1:
            return None
        reg = st.heap.get(next(iter(o.bases)))
        if reg is None or reg.content is None:
            return None
        c, v = reg.content, o.view
        if v is _ident:
            return c
        return lambda i, c=c, v=v: c(v(i))

    def arr_dtype(self, st, o):
        ds = set(st.heap[r].dtype for r in o.bases if r in st.heap)
        return next(iter(ds)) if len(ds) == 1 else None

    def arr_deps(self, st, o):
        d = o.deps
        for r in o.bases:
            if r in st.heap:
                d = d | st.heap[r].deps
        return d

    def deps(self, st, v, shallow=False):
        """all labels reachable from v"""
        out = set(v.d)
        seen = set()
        stack = list(v.r)
        for f in v.f:
            if isinstance(f, tuple) and f[0] in ("am", "bm"):
                out |= self.deps(st, f[1] if f[0] == "am" else f[2])
        while stack:
            o = stack.pop()
            if o in seen:
                continue
            seen.add(o)
            ob = st.heap.get(o)
            if ob is None:
                continue
            out |= ob.deps
            if ob.kind == "array":
                stack.extend(ob.bases)
            for w in self.children(ob):
                out |= w.d
                stack.extend(w.r)
        return frozenset(out)

    def children(self, ob):
        if ob.attrs:
            for w in ob.attrs.values():
                yield w
        if ob.items is not None:
            it = ob.items.values() if isinstance(ob.items, dict) else ob.items
            for w in it:
                yield w
        if ob.rest is not None:
            yield ob.rest

    def reach(self, st, v, into=None):
        """object/region ids reachable from v"""
        seen = set()
        stack = list(v.r)
        for f in v.f:
            if isinstance(f, tuple) and f[0] == "bm":
                stack.extend(f[2].r)
            elif isinstance(f, tuple) and f[0] == "am":
                stack.extend(f[1].r)
        while stack:
            o = stack.pop()
            if o in seen:
                continue
            seen.add(o)
            ob = st.heap.get(o)
            if ob is None:
                continue
            stack.extend(ob.bases)
            for w in self.children(ob):
                stack.extend(w.r)
        return seen

    # facts ----------------------------------------------------------------
    def interval(self, p):
        """(lo, hi) of a real polynomial from the facts; None = unbounded"""
        if p in self.facts:
            return self.facts[p]
        n = -p
        if n in self.facts:
            lo, hi = self.facts[n]
            return (None if hi is None else -hi, None if lo is None else -lo)
        lo = hi = Fraction(0)
        for m, c in p.terms:
            if c[1] != 0:
                return (None, None)
            a, b = self.mono_interval(m)
            k = c[0]
            if k < 0:
                a, b = b, a
            lo = None if (lo is None or a is None) else lo + k * a
            hi = None if (hi is None or b is None) else hi + k * b
        return (lo, hi)

    def mono_interval(self, m):
        if m == ():
            return (Fraction(1), Fraction(1))
        key = tm.mono(m)
        if key in self.facts:
            return self.facts[key]
        lo = hi = Fraction(1)
        for b, e in m:
            f = self.facts.get(b)
            if f is None and b.op == "br":
                f = (Fraction(0), Fraction(1))
            if f is None and b.pos:
                f = (Fraction(0), None)
            if f is None or e.denominator != 1 or e < 0:
                if e.denominator == 1 and e % 2 == 0:
                    f = (Fraction(0), None)
                else:
                    return (None, None)
            else:
                a, c = f
                if e != 1:
                    if a is not None and a >= 0:
                        f = (a ** int(e), None if c is None else c ** int(e))
                    elif e % 2 == 0:
                        f = (Fraction(0), None)
                    else:
                        return (None, None)
            cands = [_mulx(x, y) for x in ((lo, -1), (hi, 1))
                     for y in ((f[0], -1), (f[1], 1))]
            los = [c for c in cands]
            lo = None if any(c == (None, -1) for c in los) else min(
                c[0] for c in los if c[0] is not None) if any(
                c[0] is not None for c in los) else None
            hi = None if any(c == (None, 1) for c in los) else max(
                c[0] for c in los if c[0] is not None) if any(
                c[0] is not None for c in los) else None
        return (lo, hi)

    def decide(self, b):
        """decide a 0/1 polynomial from facts; returns it simplified"""
        if b.rational is not None or not self.facts:
            return b
        mp = {}
        for m, _ in b.terms:
            for t, _e in m:
                if t.op == "br" and t not in mp and t.args[0] in (
                        "ge", "gt", "eq"):
                    k = self.decide_br(t)
                    if k is not None:
                        mp[t] = tm.num(k)
        if mp:
            b = tm.subst(b, mp)
        return b

    def decide_br(self, t):
        if t in self.facts:
            lo, hi = self.facts[t]
            if lo == hi:
                return int(lo)
        lo, hi = self.interval(t.args[1])
        op = t.args[0]
        if op == "ge":
            if lo is not None and lo >= 0:
                return 1
            if hi is not None and hi < 0:
                return 0
        elif op == "gt":
            if lo is not None and lo > 0:
                return 1
            if hi is not None and hi <= 0:
                return 0
        elif op == "eq":
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return 0
            if lo == 0 and hi == 0:
                return 1
        # strictness facts: [p > 0] recorded as a fact on the bracket itself
        for q, sgn in ((t.args[1], 1), (-t.args[1], -1)):
            g = tm.gt0(q)
            b = tm.as_base(g)
            if b is not None and b in self.facts and self.facts[b] == (1, 1):
                if sgn > 0:
                    return 1 if op in ("ge", "gt") else 0
                return 0
        return None

    # ------------------------------------------------------------- modules
    def load(self, name):
        """evaluate a project module; its globals live in base.loc keyed by
        (module, name)"""
        if self.modstate.get(name):
            return
        if name not in self.p.modules:
            raise AnalysisBroken("module %s is gone" % name)
        if "." in name:
            self.load(name.rpartition(".")[0])
        if self.modstate.get(name):
            return
        self.modstate[name] = "busy"
        m = self.p.modules[name]
        save = (self.pc, self.frames, self.stack, self.ctx, self.cur)
        self.pc, self.frames, self.stack, self.ctx = EMPTY, [], [], ()
        self.cur = ("mod", name)
        st = self.base
        st.loc[(self.cur, "__name__")] = const(name)
        st.loc[(self.cur, "__file__")] = const(name)
        before = set(st.heap)
        fl = self.block(m.tree.body, st)
        if fl.next is not None:
            self.base = fl.next
        for oid in list(self.base.heap):
            if oid not in before:
                o = self.base.heap[oid]
                if o.origin == "fresh":
                    self.base.heap[oid] = o.rep(origin="module:" + name,
                                                weak=False)
        (self.pc, self.frames, self.stack, self.ctx, self.cur) = save
        self.modstate[name] = "done"

    cur = ("mod", "?")

    def load_all(self):
        for name in sorted(self.p.modules):
            self.load(name)
        # name module-level containers for readable reports
        for (sc, nm), v in sorted(self.base.loc.items(),
                                  key=lambda kv: str(kv[0])):
            if not (isinstance(sc, tuple) and sc[0] == "mod"):
                continue
            for r in v.r:
                o = self.base.heap.get(r)
                if o is not None and o.origin == "module:" + sc[1]:
                    lab = "module:%s.%s" % (sc[1], nm)
                    for q in self.reach(self.base, V(r=frozenset([r]))):
                        oo = self.base.heap[q]
                        if oo.origin == "module:" + sc[1]:
                            self.base.heap[q] = oo.rep(origin=lab)

    def lookup_public(self, dotted):
        """V bound to a dotted public name, resolved through the package"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.p.modules:
                self.load(mod)
                rest = parts[i:]
                if not rest:
                    return V(f=frozenset([("mod", mod)]))
                v = self.base.loc.get((("mod", mod), rest[0]))
                if v is None:
                    raise AnalysisBroken("%s is gone" % dotted)
                for a in rest[1:]:
                    cls = [f for f in v.f if isinstance(f, ClassInfo)]
                    if not cls:
                        raise AnalysisBroken("%s is gone" % dotted)
                    _, v = cls[0].lookup(a)
                    if v is None:
                        raise AnalysisBroken("%s is gone" % dotted)
                return v
        raise AnalysisBroken("%s is gone" % dotted)

    # ---------------------------------------------------------- name access
    def scope_chain(self):
        s = self.cur
        while s is not None:
            yield s
            s = self.scopes.get(s)

    def load_name(self, st, name, node):
        if self.cur is not None:
            v = st.loc.get((self.cur, name))
            if v is not None and v is not UNBOUND:
                if UNB in v.c:
                    self.event("unbound", node, name=name)
                    v = V(v.c - {UNB}, v.t, v.r, v.f, v.d, v._s, v.x)
                    if v.bottom:
                        v = unk("any")
                return v
        for s in self.scope_chain():
            v = st.loc.get((s, name))
            if v is None and s[0] == "mod":
                v = self.base.loc.get((s, name))
            if v is not None and not (v.c == frozenset([UNB])
                                      and not v.t and not v.r and not v.f):
                return V(v.c - {UNB}, v.t, v.r, v.f, v.d, v._s, v.x) \
                    if UNB in v.c else v
        if name in self.models.builtins:
            return V(f=frozenset([("ext", "builtins." + name)]))
        self.event("unbound", node, name=name, always=True)
        return unk("any")

    def store_name(self, st, name, v):
        g = self.globals_decl.get(self.cur)
        if g and name in g:
            scope = g[name]
            self.event("globalwrite", self.node_now, name=name,
                       scope=scope)
            st.loc[(scope, name)] = v.add(self.pc)
            return
        st.loc[(self.cur, name)] = v.add(self.pc)

    globals_decl = {}
    node_now = None

    # --------------------------------------------------------------- blocks
    def block(self, stmts, st):
        out = Flow()
        pc0 = self.pc
        cur = st
        for s in stmts:
            if cur is None:
                break
            fl = self.stmt(s, cur)
            out.rets += fl.rets
            out.brk += fl.brk
            out.cont += fl.cont
            out.raises += fl.raises
            out.xret |= fl.xret
            out.xloop |= fl.xloop
            cur = fl.next
            if fl.xret or fl.xloop:
                self.pc = self.pc | fl.xret | fl.xloop
        out.next = cur
        self.pc = pc0
        return out

    def stmt(self, s, st):
        self.n_stmts += 1
        self.node_now = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsup("statement " + type(s).__name__, s)
            return Flow(st)
        self.pending = []
        fl = m(s, st)
        return fl

    def s_Pass(self, s, st):
        return Flow(st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return self.after(st)

    def after(self, st):
        """flow after evaluating expressions (dead if a call never
        returned)"""
        if self.dead(st):
            f = Flow(None)
            f.raises.append((st, "Exception"))
            return f
        return Flow(st)

    def dead(self, st):
        return ("dead",) in st.ghost

    def kill(self, st):
        st.ghost = st.ghost | {("dead",)}

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if not self.dead(st):
            for t in s.targets:
                self.assign(t, v, st)
        return self.after(st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if not self.dead(st):
                self.assign(s.target, v, st)
        return self.after(st)

    def s_AugAssign(self, s, st):
        t = s.target
        load = _as_load(t)
        cur = self.ev(load, st)
        val = self.ev(s.value, st)
        if self.dead(st):
            return self.after(st)
        op = type(s.op).__name__
        arrs = [r for r in cur.r
                if st.heap.get(r) is not None
                and st.heap[r].kind == "array"]
        lists = [r for r in cur.r if st.heap.get(r) is not None
                 and st.heap[r].kind == "list"]
        if arrs or lists:
            # in-place update of mutable storage
            rest = V(cur.c, cur.t, frozenset(cur.r) - set(arrs) - set(lists),
                     cur.f, cur.d)
            res = BOT
            if not rest.bottom:
                res = self.models.binop(op, rest, val, st, s)
            for r in arrs:
                one = V(r=frozenset([r]), d=cur.d)
                new = self.models.binop(op, one, val, st, s)
                self.models.store_array(st, one, None, new, s,
                                        strong=len(arrs) == 1 and rest.bottom)
                res = one if res is BOT else join(res, one)
            for r in lists:
                one = V(r=frozenset([r]), d=cur.d)
                self.models.call_method(st, one, "extend", [val], {}, s)
                res = one if res is BOT else join(res, one)
            if isinstance(t, ast.Name):
                self.store_name(st, t.id, res)
            elif isinstance(t, ast.Subscript):
                # numpy: __setitem__ with the mutated view is a no-op; what
                # a mask or a list of indices selects is a copy
                held = set()
                for r in self.ev(_as_load(t.value), st).r:
                    o = st.heap.get(r)
                    if o is not None and o.kind == "array":
                        held |= set(o.bases)
                copy = held and not any(set(st.heap[r].bases) & held
                                        for r in arrs)
                if copy or not arrs:
                    self.assign(t, res, st)
            else:
                self.assign(t, res, st, quiet=True)
            return self.after(st)
        new = self.models.binop(op, cur, val, st, s)
        self.assign(t, new, st)
        return self.after(st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.loc[(self.cur, t.id)] = UNBOUND
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                idx = self.ev(t.slice, st)
                self.models.delitem(st, base, idx, s)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st)
                for r in base.r:
                    self.mutate(st, r, s)
        return Flow(st)

    def s_Global(self, s, st):
        mod = [x for x in self.scope_chain() if x[0] == "mod"][0]
        d = self.globals_decl.setdefault(self.cur, {})
        for n in s.names:
            d[n] = mod
        return Flow(st)

    def s_Nonlocal(self, s, st):
        d = self.globals_decl.setdefault(self.cur, {})
        for n in s.names:
            for sc in list(self.scope_chain())[1:]:
                if (sc, n) in st.loc:
                    d[n] = sc
                    break
        return Flow(st)

    def s_Import(self, s, st):
        for a in s.names:
            if a.name.split(".")[0] == self.p_pkg():
                if a.name in self.p.modules:
                    self.load_into(a.name, st)
                target = a.name if a.asname else a.name.split(".")[0]
                v = V(f=frozenset([("mod", target)]))
            else:
                target = a.name if a.asname else a.name.split(".")[0]
                v = V(f=frozenset([("ext", target)]))
            self.store_name(st, a.asname or a.name.split(".")[0], v)
        return Flow(st)

    def p_pkg(self):
        return "qmix"

    def load_into(self, name, st):
        """load a module while the module-level state ``st`` is live"""
        if st is self.base or not self.base_live(st):
            self.load(name)
            return
        self.load(name)

    def base_live(self, st):
        return False

    def s_ImportFrom(self, s, st):
        mod = [x for x in self.scope_chain() if x[0] == "mod"][0][1]
        target = resolve_import(mod, self.p.modules[mod].is_pkg, s.level,
                                s.module)
        for a in s.names:
            if target.split(".")[0] == self.p_pkg():
                sub = target + "." + a.name
                self.load(target) if target in self.p.modules else None
                if a.name == "*":
                    src = ("mod", target)
                    for (sc, n), v in list(self.base.loc.items()):
                        if sc == src and not n.startswith("_"):
                            self.store_name(st, n, v)
                    continue
                v = self.base.loc.get((("mod", target), a.name))
                if v is None and sub in self.p.modules:
                    self.load(sub)
                    v = V(f=frozenset([("mod", sub)]))
                if v is None:
                    self.event("unbound", s, name=a.name, always=True)
                    v = unk("any")
            else:
                v = V(f=frozenset([("ext", target + "." + a.name)]))
                k = self.models.ext_value(target + "." + a.name)
                if k is not None:
                    v = k
            self.store_name(st, a.asname or a.name, v)
        return Flow(st)

    def s_FunctionDef(self, s, st):
        v = self.make_func(s, st)
        for dec in reversed(s.decorator_list):
            v = self.decorate(dec, v, st, s)
        self.store_name(st, s.name, v)
        return Flow(st)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, dec, v, st, s):
        dv = self.ev(dec, st)
        names = set()
        for f in dv.f:
            if isinstance(f, tuple) and f[0] in ("ext", "am"):
                names.add(f[1] if f[0] == "ext" else "?")
        for f in dv.f:
            if isinstance(f, tuple) and f[0] == "ext":
                base = f[1]
                if base.startswith("numba") or base in (
                        "builtins.property", "builtins.staticmethod",
                        "builtins.classmethod", "contextlib.contextmanager",
                        "functools.wraps"):
                    return v
                if base in ("functools.lru_cache", "functools.cache"):
                    self.event("cache", s, name=base)
                    return v
        if any(isinstance(f, Closure) for f in dv.f):
            return self.call(dv, [v], {}, st, s)
        if dv.t or not dv.f:
            return v          # opaque decorator factory: identity
        return v

    def make_func(self, s, st, kind="plain", cls=None):
        mod = [x for x in self.scope_chain() if x[0] == "mod"][0][1]
        if isinstance(s, ast.Lambda):
            name = "<lambda>"
        else:
            name = s.name
        prefix = self.stack[-1].qual if self.stack else mod
        if cls is not None:
            prefix = cls.qual
        fn = Func(s, name, prefix + "." + name, mod, cls, kind)
        a = s.args
        pos = a.posonlyargs + a.args
        defaults = {}
        for p, dflt in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[p.arg] = self.ev(dflt, st)
        for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if dflt is not None:
                defaults[p.arg] = self.ev(dflt, st)
        c = Closure(fn, defaults, None, self.cur, self.nid(s))
        return V(f=frozenset([c]))

    def s_ClassDef(self, s, st):
        mod = [x for x in self.scope_chain() if x[0] == "mod"][0][1]
        bases = []
        for b in s.bases:
            bv = self.ev(b, st)
            for f in bv.f:
                bases.append(f)
        info = ClassInfo(s.name, mod + "." + s.name, s, mod, bases)
        self.classes[info.qual] = info
        save = self.cur
        scope = ("cls", info.qual)
        self.scopes[scope] = save
        for item in s.body:
            if isinstance(item, (ast.FunctionDef,)):
                v = self.make_func(item, st, cls=info)
                isprop = False
                for dec in item.decorator_list:
                    nm = _dotted(dec)
                    if nm in ("property", "functools.cached_property",
                              "cached_property"):
                        isprop = True
                        info.props[item.name] = next(iter(v.f))
                    elif nm == "staticmethod":
                        info.static.add(item.name)
                    elif nm == "classmethod":
                        info.clsm.add(item.name)
                    elif nm and nm.endswith((".setter", ".deleter",
                                             ".getter")):
                        isprop = True
                    else:
                        v = self.decorate(dec, v, st, item)
                if not isprop:
                    info.members[item.name] = v
            elif isinstance(item, (ast.Assign, ast.AnnAssign)):
                if item.value is None:
                    continue
                v = self.ev(item.value, st)
                ts = item.targets if isinstance(item, ast.Assign) \
                    else [item.target]
                for t in ts:
                    if isinstance(t, ast.Name):
                        info.members[t.id] = v
        v = V(f=frozenset([info]))
        self.cur = save
        self.store_name(st, s.name, v)
        return Flow(st)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if self.dead(st):
            return self.after(st)
        f = Flow(None)
        f.rets.append((st, v.add(self.pc)))
        return f

    def s_Raise(self, s, st):
        nm = "Exception"
        if s.exc is not None:
            v = self.ev(s.exc, st)
            for f in v.f:
                if isinstance(f, tuple) and f[0] == "ext":
                    nm = f[1].split(".")[-1]
            for r in v.r:
                o = st.heap.get(r)
                if o is not None and o.cls:
                    nm = str(o.cls).split(".")[-1]
            if isinstance(s.exc, ast.Call):
                nm = (_dotted(s.exc.func) or nm).split(".")[-1]
            elif _dotted(s.exc):
                nm = _dotted(s.exc).split(".")[-1]
        self.event("raise", s, exc=nm,
                   d=tuple(sorted(map(str, self.pc))))
        f = Flow(None)
        f.raises.append((st, nm))
        self.throw(st, nm)
        return f

    #: [condition or None, exception] of every raise and failed assertion
    #: since it was set to a list
    thrown = None
    paths = ()
    in_try = 0

    def throw(self, st, nm, cond=None):
        if self.thrown is None:
            return
        t = None
        if st.path is not None and None not in self.paths and \
                not self.in_try:
            t = st.path
            for p in self.paths:
                t = t * p
            if cond is not None:
                t = t * cond
        self.thrown.append((t, nm))

    def s_Break(self, s, st):
        f = Flow(None)
        f.brk.append(st)
        return f

    def s_Continue(self, s, st):
        f = Flow(None)
        f.cont.append(st)
        return f

    def s_Assert(self, s, st):
        cond = self.ev(s.test, st)
        if self.dead(st):
            return self.after(st)
        t = self.truth(cond, st)
        f = Flow(st)
        self.event("assert", s, truth=str(t),
                   d=tuple(sorted(map(str, self.deps(st, cond) | self.pc))))
        if t is False:
            f.next = None
            f.raises.append((st, "AssertionError"))
            self.throw(st, "AssertionError")
            return f
        if t is None:
            self.guard_hits.append((s, self.deps(st, cond)))
            f.raises.append((st.copy(), "AssertionError"))
            if self.thrown is not None:
                ct = self.cond_term(cond)
                if ct is None:
                    self.thrown.append((None, "AssertionError"))
                else:
                    self.throw(st, "AssertionError", tm.lnot(ct))
            self.refine(st, s.test, True)
        return f

    # ------------------------------------------------------------------- if
    def s_If(self, s, st):
        cond = self.ev(s.test, st)
        if self.dead(st):
            return self.after(st)
        return self.branch(s, s.test, cond, st,
                           lambda x: self.block(s.body, x),
                           lambda x: self.block(s.orelse, x))

    def branch(self, node, test, cond, st, then, orelse):
        t = self.truth(cond, st)
        cd = self.deps(st, cond)
        pc0 = self.pc
        if t is not None:
            self.frames.append(("if", cd, self.nid(node), t, True))
            self.pc = pc0 | cd
            fl = (then if t else orelse)(st)
            self.frames.pop()
            self.pc = pc0
            if fl.rets and cd:
                fl.xret |= cd
            if (fl.brk or fl.cont) and cd:
                fl.xloop |= cd
            return fl
        self.cond_seen(node, cd, cond)
        s1, s2 = st, st.copy()
        ct = self.cond_term(cond)
        self.pc = pc0 | cd
        path0 = st.path
        if ct is not None and path0 is not None:
            s1.path = path0 * ct
            s2.path = path0 * tm.lnot(ct)
        else:
            s1.path = s2.path = None
        if path0 is None:
            s1.path = s2.path = None
        self.refine(s1, test, True)
        self.refine(s2, test, False)
        self.frames.append(("if", cd, self.nid(node), True, False))
        f1 = then(s1)
        self.frames.pop()
        self.frames.append(("if", cd, self.nid(node), False, False))
        f2 = orelse(s2)
        self.frames.pop()
        self.pc = pc0
        out = Flow()
        out.rets = f1.rets + f2.rets
        out.brk = f1.brk + f2.brk
        out.cont = f1.cont + f2.cont
        out.raises = f1.raises + f2.raises
        out.xret = f1.xret | f2.xret
        out.xloop = f1.xloop | f2.xloop
        live1 = f1.next is not None or f1.rets or f1.brk or f1.cont
        live2 = f2.next is not None or f2.rets or f2.brk or f2.cont
        if out.raises and not (live1 and live2):
            self.guard_hits.append((node, cd))
        if out.rets and live1 and live2:
            out.xret |= cd
        if (out.brk or out.cont) and live1 and live2:
            out.xloop |= cd
        if f1.next is not None and f2.next is not None:
            if f1.rets or f1.brk or f1.cont or f2.rets or f2.brk or f2.cont:
                p1, p2 = f1.next.path, f2.next.path
                path = None if (p1 is None or p2 is None) else p1 + p2
            else:
                path = path0
            out.next = self.join_st(f1.next, f2.next, ct, path)
        else:
            out.next = f1.next if f1.next is not None else f2.next
            if out.next is not None and not (live1 and live2):
                out.next.path = path0
        return out

    def cond_seen(self, node, deps, cond):
        pass

    def join_st(self, a, b, ct=None, path=None):
        snaps = {}
        if ct is not None:
            for k, x in a.loc.items():
                y = b.loc.get(k)
                if y is None or x is y or x == y:
                    continue
                m = self.phi_array(a, b, x, y, ct)
                if m is not None:
                    snaps[k] = m
        out = join_states(a, b, ct, path)
        if path is None and ct is None:
            out.path = None
        for k, (oid, o, d) in snaps.items():
            out.heap[oid] = o
            out.loc[k] = V(r=frozenset([oid]), d=d)
        return out

    def phi_value(self, a, b, x, y, ct, new):
        """merge of two values, arrays and tuples of arrays included; new
        objects go to ``new``"""
        if x is y or x == y:
            return x
        m = self.phi_array(a, b, x, y, ct)
        if m is not None:
            new[m[0]] = m[1]
            return V(r=frozenset([m[0]]), d=m[2])
        if len(x.r) == 1 and len(y.r) == 1 and not (
                x.c or y.c or x.t or y.t or x.f or y.f):
            ox = a.heap.get(next(iter(x.r)))
            oy = b.heap.get(next(iter(y.r)))
            if ox is not None and oy is not None and \
                    ox.kind == oy.kind == "tuple" and ox.items is not None \
                    and oy.items is not None and \
                    len(ox.items) == len(oy.items):
                n0 = len(new)
                items = tuple(self.phi_value(a, b, p, q, ct, new)
                              for p, q in zip(ox.items, oy.items))
                if len(new) > n0 or self.terms:
                    oid = ("phi", x, y, ct.id)
                    new[oid] = O("tuple", items=items, rest=None,
                                 deps=ox.deps | oy.deps)
                    return V(r=frozenset([oid]), d=x.d | y.d)
        return join(x, y, ct)

    def phi_array(self, a, b, x, y, ct):
        """merge of two array values (or an array and a scalar)"""
        ox, oy = self.array_obj(a, x), self.array_obj(b, y)
        if ox is None or oy is None:
            return None
        if ox.rank is None or ox.rank != oy.rank:
            return None
        cx, cy = self.content(a, ox), self.content(b, oy)
        if cx is None or cy is None:
            return None
        oid = ("phi", x, y, ct.id)
        bases = ox.bases | oy.bases
        cur = tuple((r, (a.heap.get(r) or b.heap.get(r)).content)
                    for r in sorted(bases, key=str)
                    if _same_content(a, b, r))
        if len(cur) != len(bases):
            return None
        shape = None
        if ox.shape and oy.shape:
            shape = tuple(p if p is q else None if p is None or q is None
                          else tm.phi(ct, p, q)
                          for p, q in zip(ox.shape, oy.shape))
        o = O("array", bases=bases, rank=ox.rank, deps=ox.deps | oy.deps,
              shape=shape, content=lambda i: tm.phi(ct, cx(i), cy(i)),
              extra=("snap", cur))
        return oid, o, x.d | y.d

    # ----------------------------------------------------------- truth
    def truth(self, v, st):
        """True/False/None"""
        res = set()
        if v.s is not None and not v.c and not v.r and not v.f:
            k = v.s.rational
            if k is not None:
                return bool(k)
            k = self.decide(v.s).rational
            if k is not None:
                return bool(k)
        for k in v.c:
            if k == UNB:
                continue
            try:
                res.add(bool(k[1]))
            except Exception:
                res.add(None)
        if v.t:
            if v.t == frozenset(["none"]):
                res.add(False)
            else:
                res.add(None)
        for r in v.r:
            o = st.heap.get(r)
            if o is None:
                res.add(None)
            elif o.kind in ("list", "tuple", "set"):
                res.add(None if o.items is None else bool(o.items)
                        if o.rest is None else (True if o.items else None))
            elif o.kind == "dict":
                must = [k for k, x in o.items.items() if UNB not in x.c]
                res.add(True if must else
                        (None if (o.items or o.rest is not None) else False))
            elif o.kind == "inst":
                res.add(True)
            else:
                res.add(None)
        for f in v.f:
            res.add(True)
        if res == {True}:
            return True
        if res == {False}:
            return False
        return None

    def cond_term(self, v):
        """0/1 term of a condition value, or None"""
        s = v.s
        if s is None:
            return None
        if v.t == frozenset(["bool"]) or all(k[0] == "bool" for k in v.c):
            if v.r or v.f:
                return None
            return self.decide(s)
        if v.t <= {"int", "float", "num"} and not v.r and not v.f:
            return tm.lnot(tm.eq0(s))
        return None

    # ---------------------------------------------------------- refinement
    def refine(self, st, test, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(st, test.operand, not truth)
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            if isand == truth:
                for v in test.values:
                    self.refine(st, v, truth)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            left, right = test.left, test.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                pos = truth == isinstance(op, (ast.Is, ast.Eq))
                if isinstance(right, ast.Constant):
                    return self.refine_const(st, left, right.value, pos)
                if isinstance(left, ast.Constant):
                    return self.refine_const(st, right, left.value, pos)
            return
        if isinstance(test, ast.Call) and _dotted(test.func) == "isinstance" \
                and len(test.args) == 2:
            v = self.peek(st, test.args[0])
            if v is None:
                return
            tv = self.ev_quiet(test.args[1], st)
            keep = self.models.isinstance_filter(st, v, tv, truth)
            self.poke(st, test.args[0], keep)
            return
        v = self.peek(st, test)
        if v is not None:
            c = frozenset(k for k in v.c
                          if k == UNB or bool(k[1]) == truth)
            t = v.t
            if truth:
                t = t - {"none"}
            r = v.r
            if not truth:
                r = frozenset(x for x in r if st.heap.get(x) is not None
                              and st.heap[x].kind != "inst")
            nv = V(c, t, r, v.f if truth else EMPTY, v.d, v._s, v.x)
            self.poke(st, test, nv)

    def refine_const(self, st, expr, k, equal):
        v = self.peek(st, expr)
        if v is None:
            return
        key = ck(k)
        if equal:
            if k is None:
                nv = V(frozenset([key]), d=v.d) \
                    if (key in v.c or v.t & {"any", "none"}) else None
                if nv is None:
                    return
            elif isinstance(k, (str, bool)) and (
                    key in v.c or v.t & {"any", "str", "bool"}):
                nv = V(frozenset([key]), d=v.d)
            else:
                return
        else:
            if not (isinstance(k, (str, bool)) or k is None):
                return
            t = v.t - {"none"} if k is None else v.t
            nv = V(v.c - {key}, t, v.r, v.f, v.d, v._s, v.x)
            if nv.bottom:
                return
        self.poke(st, expr, nv)

    def peek(self, st, expr):
        if isinstance(expr, ast.Name):
            return st.loc.get((self.cur, expr.id))
        if isinstance(expr, ast.Attribute) and isinstance(expr.value,
                                                          ast.Name):
            b = st.loc.get((self.cur, expr.value.id))
            if b is not None and len(b.r) == 1:
                o = st.heap.get(next(iter(b.r)))
                if o is not None and o.kind == "inst" and o.attrs:
                    return o.attrs.get(expr.attr)
        return None

    def poke(self, st, expr, v):
        if v.bottom:
            return
        if isinstance(expr, ast.Name):
            st.loc[(self.cur, expr.id)] = v
        else:
            b = st.loc.get((self.cur, expr.value.id))
            oid = next(iter(b.r))
            o = st.heap[oid]
            at = dict(o.attrs)
            at[expr.attr] = v
            st.heap[oid] = o.rep(attrs=at)

    def ev_quiet(self, e, st):
        rec = self.record
        self.record = False
        try:
            return self.ev(e, st.copy())
        finally:
            self.record = rec

    # -------------------------------------------------------------- assign
    def assign(self, t, v, st, quiet=False):
        if isinstance(t, ast.Name):
            self.store_name(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts)
                     if isinstance(e, ast.Starred)]
            vals = self.models.unpack(st, v, len(t.elts), t,
                                      star=stars[0] if stars else None)
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.set_attr(st, base, t.attr, v, t, quiet)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev_index(t.slice, st)
            self.models.setitem(st, base, idx, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.unsup("target " + type(t).__name__, t)

    def mutate(self, st, oid, node, what=""):
        """note that object/region oid is modified"""
        o = st.heap.get(oid)
        if o is None:
            return
        if o.origin != "fresh":
            self.event("mutate", node, origin=o.origin, what=what)

    def set_attr(self, st, base, name, v, node, quiet=False):
        v = v.add(self.pc)
        if base.t or base.bottom:
            self.event("extattr", node, name=name)
        for f in base.f:
            if isinstance(f, ClassInfo):
                self.event("mutate", node, origin="class:" + f.qual,
                           what=name)
            elif isinstance(f, tuple) and f[0] in ("mod", "ext"):
                self.event("mutate", node, origin="%s:%s" % f, what=name)
        strong = len(base.r) == 1 and not base.t
        for r in base.r:
            o = st.heap.get(r)
            if o is None:
                continue
            if o.kind == "flags":
                self.models.set_flag(st, o, name, v, node)
                continue
            if o.kind == "array" and name in ("real", "imag") and strong \
                    and self.terms and o.rank is not None:
                one = V(r=frozenset([r]))
                j = tm.mono((), (0, 1))
                new = self.models.elementwise(
                    st, [one, v], node, (lambda a, b: b + j * tm.im(a))
                    if name == "real" else
                    (lambda a, b: tm.re(a) + j * b), tag="part")
                self.models.store_array(st, one, None, new, node)
                continue
            if o.kind == "array":
                self.models.store_array(st, V(r=frozenset([r])), None, v,
                                        node, strong=False)
                continue
            if not quiet:
                self.mutate(st, r, node, what=name)
            if o.kind == "inst":
                prop = o.cls.prop(name) if isinstance(o.cls, ClassInfo) \
                    else None
                if prop is not None:
                    self.event("propset", node, name=name)
                at = dict(o.attrs)
                if strong and not o.weak:
                    at[name] = v
                else:
                    at[name] = join(at.get(name, UNBOUND), v)
                st.heap[r] = o.rep(attrs=at)
            elif o.kind in ("fig", "axes", "ext"):
                pass

    # --------------------------------------------------------------- loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        if self.dead(st):
            return self.after(st)
        held0 = self.held
        elems, summary, _ = self.models.iterate(st, it, s)
        self.held = held0 + (it, summary) + tuple(elems or ())
        try:
            return self.loop_over(s, it, st,
                                  lambda x, e: self.assign(s.target, e, x),
                                  s.body, s.orelse, s.target)
        finally:
            self.held = held0

    s_AsyncFor = s_For

    def loop_over(self, s, it, st, bind, body, orelse, target=None):
        elems, summary, idep = self.models.iterate(st, it, s)
        pc0 = self.pc
        out = Flow()
        if elems is not None and len(elems) <= MAXUNROLL:
            cur = st
            self.frames.append(("loop", idep, self.nid(s), True, False))
            self.pc = pc0 | idep
            ctx0 = self.ctx
            brks = []
            for n, e in enumerate(elems):
                if cur is None:
                    break
                self.ctx = ctx0 + (("it", self.nid(s), n),)
                bind(cur, e)
                fl = self.block(body, cur)
                out.rets += fl.rets
                out.raises += fl.raises
                out.xret |= fl.xret
                brks += fl.brk
                cur = fl.next
                for c in fl.cont:
                    cur = self.join_path(cur, c)
                if fl.xloop or fl.xret:
                    self.pc = self.pc | fl.xloop | fl.xret
            self.ctx = ctx0
            self.frames.pop()
            self.pc = pc0
            if orelse and cur is not None:
                fl = self.block(orelse, cur)
                out.rets += fl.rets
                out.raises += fl.raises
                out.xret |= fl.xret
                out.brk += fl.brk
                out.cont += fl.cont
                cur = fl.next
            for b in reversed(brks):
                cur = self.join_path(cur, b)
            out.next = cur
            return out
        pre = st.copy()
        nonempty = self.models.nonempty(st, it)
        fl = self.fix(s, st, lambda x: bind(x, summary), body, idep,
                      nonempty=nonempty)
        exits = fl.cont          # normal exhaustion states
        out.rets, out.raises = fl.rets, fl.raises
        out.xret = fl.xret
        cur = None
        for e in exits:
            cur = e if cur is None else self.join_exit(cur, e)
        if cur is not None and not fl.brk and not fl.rets:
            self.summarize(s, it, pre, cur, bind, body)
        if orelse and cur is not None:
            f2 = self.block(orelse, cur)
            out.rets += f2.rets
            out.raises += f2.raises
            out.xret |= f2.xret
            out.brk += f2.brk
            out.cont += f2.cont
            cur = f2.next
        for b in fl.brk:
            cur = self.join_exit(cur, b)
        out.next = cur
        return out

    def join_path(self, a, b):
        """merge of two states that exclude each other, by their paths"""
        if a is None:
            return b
        if b is None:
            return a
        if a is b or a.path is None or b.path is None:
            return self.join_exit(a, b)
        return self.join_st(b, a, b.path, a.path + b.path)

    def join_exit(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        p = a.path
        r = join_states(a, b, None)
        r.path = p if a.path is b.path else None
        return r

    def s_While(self, s, st):
        from . import loops
        r = loops.counted(self, s, st) if self.terms else None
        if r is not None:
            return r
        pc0 = self.pc
        out = Flow()
        exits = []
        tinfo = {}

        def head(x):
            c = self.ev(s.test, x)
            t = self.truth(c, x)
            d = self.deps(x, c)
            tinfo["d"] = tinfo.get("d", EMPTY) | d
            if t is not True:
                e = x.copy()
                self.refine(e, s.test, False)
                exits.append(e)
            if t is False:
                return False
            self.pc = self.pc | d
            self.refine(x, s.test, True)
            return True
        fl = self.fix(s, st, head, s.body, EMPTY, is_while=True,
                      exits=exits)
        out.rets, out.raises, out.xret = fl.rets, fl.raises, fl.xret
        cur = None
        for e in fl.cont:
            cur = self.join_exit(cur, e)
        self.pc = pc0
        if s.orelse and cur is not None:
            f2 = self.block(s.orelse, cur)
            out.rets += f2.rets
            out.raises += f2.raises
            out.brk += f2.brk
            out.cont += f2.cont
            cur = f2.next
        for b in fl.brk:
            cur = self.join_exit(cur, b)
        out.next = cur
        return out

    def fix(self, s, st, bind, body, idep, is_while=False, exits=None,
            nonempty=False):
        """loop fixpoint.  Result flow: cont = states at normal exit,
        brk/rets/raises as collected in the stable iteration."""
        pc0 = self.pc
        inv = st
        first_exit = None if nonempty else st.copy()
        self.frames.append(("loop", idep, self.nid(s), True, False))
        self.in_fix += 1
        xl = EMPTY
        res = None
        temps = loop_temps(self.stack[-1].node, s) if self.stack and \
            isinstance(s, (ast.For, ast.While)) else ()
        if temps and any((self.cur, n) in st.loc for n in temps):
            inv = st.copy()
            for n in temps:
                inv.loc.pop((self.cur, n), None)
        for rnd in range(40):
            self.pc = pc0 | idep | xl
            cur = inv.copy()
            cur.path = None if rnd else cur.path
            if exits is not None:
                del exits[:]
            ok = bind(cur)
            if is_while and ok is False:
                res = Flow()
                nxt = None
                break
            fl = self.block(body, cur)
            res = fl
            nxt = fl.next
            for c in fl.cont:
                nxt = self.join_exit(nxt, c)
            xl2 = xl | fl.xloop | fl.xret
            if nxt is not None:
                for n in temps:
                    nxt.loc.pop((self.cur, n), None)
                if not self.in_comp and self.stack:
                    self.gc(nxt, BOT, self.ctx)
            if nxt is None:
                if xl2 == xl:
                    break
                xl = xl2
                continue
            new = join_states(inv, nxt, None)
            new.path = None
            if rnd > 6:
                new = self.widen(inv, new)
            stable = new.same(inv) and xl2 == xl
            inv = new
            xl = xl2
            if stable:
                break
        else:
            self.unsup("loop fixpoint not reached", s)
        self.in_fix -= 1
        self.frames.pop()
        self.pc = pc0
        out = Flow()
        out.rets, out.raises, out.brk = res.rets, res.raises, res.brk
        out.xret = res.xret
        for x, _ in out.rets:
            x.path = None
        for x in out.brk:
            x.path = None
        if exits is not None:
            out.cont = list(exits)
        else:
            out.cont = []
            if nxt is not None:
                out.cont.append(nxt)
            if first_exit is not None:
                out.cont.append(first_exit)
        # control: what the loop assigned depends on the early exits
        if xl:
            for e in out.cont + out.brk:
                self.taint_changed(st, e, xl)
        for e in out.cont:
            e.path = st.path
        for e in out.brk:
            e.path = None if out.rets else st.path
        return out

    def taint_changed(self, old, new, d):
        for k, v in list(new.loc.items()):
            if old.loc.get(k) is not v:
                new.loc[k] = v.add(d)

    def widen(self, old, new):
        for k, v in list(new.loc.items()):
            w = old.loc.get(k)
            if w is not None and w is not v and w != v and v.c != w.c:
                grew = v.c - w.c
                c, t = set(v.c), set(v.t)
                for x in grew:
                    if x[0] in ("int", "float", "str", "complex"):
                        t.add(x[0])
                c = {x for x in c if x[0] not in t}
                new.loc[k] = V(frozenset(c), frozenset(t), v.r, v.f, v.d,
                               None)
        return new

    def summarize(self, s, it, pre, post, bind, body):
        from . import loops
        loops.summarize(self, s, it, pre, post, bind, body)

    # ------------------------------------------------------------ try/with
    def s_Try(self, s, st):
        start = st.copy()
        states = [start]
        out = Flow()
        cur = st
        pc0 = self.pc
        brf = Flow()
        need = False
        for i, b in enumerate(s.body):
            if cur is None:
                break
            before = cur.copy()
            safe = self.models.cannot_raise(b, cur)
            self.in_try += 1
            fl = self.stmt(b, cur)
            self.in_try -= 1
            if safe and fl.next is not None and not fl.raises:
                cur = fl.next
                continue
            need = True
            if start is not None and len(states) == 1 and i:
                states = []
            out.rets += fl.rets
            out.brk += fl.brk
            out.cont += fl.cont
            out.xret |= fl.xret
            out.xloop |= fl.xloop
            states.append(before)
            for rs, nm in fl.raises:
                brf.raises.append((rs, nm))
            cur = fl.next
            if cur is not None:
                states.append(cur.copy())
        h = None
        for x in states:
            x.ghost = x.ghost - {("dead",)}
            h = x if h is None else join_states(h, x)
        for x, _ in brf.raises:
            y = x.copy()
            y.ghost = y.ghost - {("dead",)}
            h = join_states(h, y)
        h.path = None
        if cur is not None and s.orelse:
            fl = self.block(s.orelse, cur)
            out.rets += fl.rets
            out.brk += fl.brk
            out.cont += fl.cont
            out.raises += fl.raises
            out.xret |= fl.xret
            out.xloop |= fl.xloop
            cur = fl.next
        path0 = start.path
        hs = []
        if need or cur is None or out.rets:
            dd = self.deps_of_names(s, start)
            for hd in s.handlers:
                x = h.copy()
                if hd.name:
                    x.loc[(self.cur, hd.name)] = unk("any")
                self.pc = pc0 | dd
                self.frames.append(("except", dd, self.nid(hd), True, False))
                fl = self.block(hd.body, x)
                self.frames.pop()
                self.pc = pc0
                out.rets += fl.rets
                out.brk += fl.brk
                out.cont += fl.cont
                out.raises += fl.raises
                out.xret |= fl.xret
                out.xloop |= fl.xloop
                if fl.rets:
                    out.xret |= dd
                if fl.next is not None:
                    hs.append(fl.next)
        elif not s.handlers:
            out.raises += brf.raises
        if not s.handlers:
            out.raises += brf.raises
        for x in hs:
            if cur is None:
                cur = x
            else:
                cur = join_states(cur, x)
                cur.path = None
        if cur is not None and len(hs) == 0:
            cur.path = path0
        if s.finalbody:
            if cur is not None:
                fl = self.block(s.finalbody, cur)
                cur = fl.next
                out.rets += fl.rets
                out.raises += fl.raises
            rets = []
            for x, v in out.rets:
                fl = self.block(s.finalbody, x)
                if fl.rets:
                    rets += fl.rets
                elif fl.next is not None:
                    rets.append((fl.next, v))
            out.rets = rets
        out.next = cur
        return out

    s_TryStar = s_Try

    def deps_of_names(self, s, st):
        """labels of what the try body consumes (decides whether it raises)
        -- raising on malformed input is not an information flow we track
        except through names read in the body"""
        d = EMPTY
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name):
                    v = st.loc.get((self.cur, n.id))
                    if v is not None:
                        d = d | v.d
        return d

    def s_With(self, s, st):
        exits = []
        for item in s.items:
            v = self.ev(item.context_expr, st)
            ev = self.models.enter(st, v, s)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, ev, st)
            exits.append(v)
        if self.dead(st):
            return self.after(st)
        held0 = self.held
        self.held = held0 + tuple(exits)
        fl = self.block(s.body, st)
        self.held = held0
        outs = [fl.next] + [x for x, _ in fl.rets] + fl.brk + fl.cont + \
            [x for x, _ in fl.raises]
        for x in outs:
            if x is not None:
                for v in reversed(exits):
                    self.models.exit(x, v, s)
        return fl

    s_AsyncWith = s_With

    def s_Match(self, s, st):
        """match on literals / wildcard"""
        subj = self.ev(s.subject, st)
        self.held = self.held + (subj,)

        def run(cases, st):
            if not cases:
                return Flow(st)
            case = cases[0]
            cond = self.match_cond(case.pattern, subj, st)
            if cond is True and case.guard is None:
                return self.block(case.body, st)
            test = ast.Constant(value=True)
            if cond is False:
                return run(cases[1:], st)
            cv = cond if isinstance(cond, V) else unk(
                "bool", self.deps(st, subj))
            if case.guard is not None:
                g = self.ev(case.guard, st)
                cv = self.models.bool_and(cv, g, st)
            return self.branch(case.pattern, test, cv, st,
                               lambda x: self.block(case.body, x),
                               lambda x: run(cases[1:], x))
        return run(s.cases, st)

    def match_cond(self, p, subj, st):
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                self.store_name(st, p.name, subj)
            return True
        if isinstance(p, ast.MatchValue):
            k = self.ev(p.value, st)
            return self.models.compare("Eq", subj, k, st, p)
        if isinstance(p, ast.MatchSingleton):
            return self.models.compare("Is", subj, const(p.value), st, p)
        if isinstance(p, ast.MatchOr):
            vs = [self.match_cond(q, subj, st) for q in p.patterns]
            if any(v is True for v in vs):
                return True
            vs = [v for v in vs if v is not False]
            if not vs:
                return False
            out = vs[0]
            for v in vs[1:]:
                out = self.models.bool_or(out, v, st)
            return out
        self.unsup("match pattern", p)
        return unk("bool", self.deps(st, subj))

    # ========================================================= expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsup("expression " + type(e).__name__, e)
            return unk("any")
        v = m(e, st)
        return v

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return V(c=frozenset([("ellipsis", "...")]))
        return const(e.value)

    def e_Name(self, e, st):
        return self.load_name(st, e.id, e)

    def e_Tuple(self, e, st):
        return self.seq("tuple", e, st)

    def e_List(self, e, st):
        return self.seq("list", e, st)

    def e_Set(self, e, st):
        return self.seq("set", e, st)

    def seq(self, kind, e, st):
        items, rest = [], None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                el, summ, _ = self.models.iterate(st, v, e)
                if el is not None and rest is None:
                    items += el
                else:
                    rest = summ if rest is None else join(rest, summ)
            else:
                v = self.ev(x, st)
                if rest is None:
                    items.append(v)
                else:
                    rest = join(rest, v)
        if rest is not None:
            for v in items:
                rest = join(rest, v)
            items = None
        items = tuple(items) if items is not None else None
        return self.new(st, O(kind, items=items, rest=rest, deps=self.pc), e)

    def e_Dict(self, e, st):
        items, rest = {}, None
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, st)
            if k is None:
                its, r = self.models.dict_view(st, v)
                items.update(its)
                if r is not None:
                    rest = r if rest is None else join(rest, r)
                continue
            kv = self.ev(k, st)
            if len(kv.c) == 1 and not kv.t and not kv.r and not kv.f:
                items[next(iter(kv.c))] = v
            else:
                rest = v if rest is None else join(rest, v)
        return self.new(st, O("dict", items=items, rest=rest, deps=self.pc),
                        e)

    def e_JoinedStr(self, e, st):
        from . import strpat
        return strpat.joined(self, e, st)

    def e_FormattedValue(self, e, st):
        v = self.ev(e.value, st)
        return unk("str", self.deps(st, v))

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.models.binop(type(e.op).__name__, a, b, st, e)

    def e_UnaryOp(self, e, st):
        a = self.ev(e.operand, st)
        return self.models.unop(type(e.op).__name__, a, st, e)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        pc0 = self.pc
        acc = self.ev(e.values[0], st)
        for x in e.values[1:]:
            t = self.truth(acc, st)
            if t is not None and t != isand:
                break
            if t is not None and t == isand:
                d = self.deps(st, acc)
                v = self.ev(x, st)
                acc = v.add(d)
                continue
            d = self.deps(st, acc)
            self.pc = self.pc | d
            side = st.copy()
            self.refine(side, e.values[0] if x is e.values[1] else x, isand)
            v = self.ev(x, side)
            if not self.dead(side):
                # side effects of the operand may or may not happen
                for k, o in side.heap.items():
                    old = st.heap.get(k)
                    if old is None:
                        st.heap[k] = o
                    elif old is not o:
                        st.heap[k] = join_obj(old, o, None)
            if isand:
                acc = self.models.bool_and(acc, v, st)
            else:
                acc = self.models.bool_or(acc, v, st)
            acc = acc.add(d)
        self.pc = pc0
        return acc

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            v = self.models.compare(type(op).__name__, left, right, st, e)
            out = v if out is None else self.models.bool_and(out, v, st)
            left = right
        return out

    def e_IfExp(self, e, st):
        cond = self.ev(e.test, st)
        t = self.truth(cond, st)
        d = self.deps(st, cond)
        pc0 = self.pc
        if t is not None:
            self.pc = pc0 | d
            v = self.ev(e.body if t else e.orelse, st)
            self.pc = pc0
            return v.add(d)
        ct = self.cond_term(cond)
        s2 = st.copy()
        self.refine(st, e.test, True)
        self.refine(s2, e.test, False)
        self.pc = pc0 | d
        self.frames.append(("if", d, self.nid(e), True, False))
        a = self.ev(e.body, st)
        self.frames.pop()
        self.frames.append(("if", d, self.nid(e), False, False))
        b = self.ev(e.orelse, s2)
        self.frames.pop()
        self.pc = pc0
        m = None
        if ct is not None and not self.dead(st) and not self.dead(s2):
            m = self.phi_array(st, s2, a, b, ct)
        da, db = self.dead(st), self.dead(s2)
        if da and db:
            return BOT
        if da:
            st.loc, st.heap, st.ghost = s2.loc, s2.heap, s2.ghost
            return b.add(d)
        if db:
            return a.add(d)
        j = join_states(st, s2, ct)
        st.loc, st.heap, st.ghost = j.loc, j.heap, j.ghost
        if m is not None:
            oid, o, dd = m
            st.heap[oid] = o
            return V(r=frozenset([oid]), d=dd | d)
        return join(a, b, ct).add(d)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Lambda(self, e, st):
        return self.make_func(e, st)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        self.yields[-1].append(v.add(self.pc))
        return unk("any")

    yields = []

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        el, summ, d = self.models.iterate(st, v, e)
        self.yields[-1].append(summ.add(d | self.pc))
        return unk("any")

    def e_Attribute(self, e, st):
        base = self.ev(e.value, st)
        return self.get_attr(st, base, e.attr, e)

    def get_attr(self, st, base, name, node):
        outs = []
        for f in base.f:
            outs.append(self.models.attr_callable(st, f, name, node))
        for r in self.each(base.r):
            o = st.heap.get(r)
            if o is None:
                outs.append(unk("any"))
                continue
            one = V(r=frozenset([r]), d=base.d)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                if o.attrs is not None and name in o.attrs:
                    v = o.attrs[name]
                    if UNB in v.c:
                        self.event("unbound", node, name="." + name,
                                   always=v.c == frozenset([UNB])
                                   and not (v.t or v.r or v.f))
                        v = V(v.c - {UNB}, v.t, v.r, v.f, v.d, v._s, v.x)
                        if v.bottom:
                            v = unk("any")
                    outs.append(v.add(base.d))
                    continue
                prop = o.cls.prop(name)
                if prop is not None:
                    outs.append(self.call(V(f=frozenset([prop])), [one], {},
                                          st, node))
                    continue
                c, m = o.cls.lookup(name)
                if m is not None:
                    if name in c.static:
                        outs.append(m)
                    else:
                        for f in m.f:
                            outs.append(V(f=frozenset([("bm", f, one)])))
                        if not m.f:
                            outs.append(m)
                    continue
                if name == "__class__":
                    outs.append(V(f=frozenset([o.cls])))
                    continue
                if name == "__dict__":
                    outs.append(unk("any", self.deps(st, one)))
                    continue
                self.event("unbound", node, name="." + name, always=True)
                outs.append(unk("any"))
            elif o.kind == "inst" and o.attrs and name in o.attrs:
                outs.append(o.attrs[name].add(base.d))
            else:
                outs.append(self.models.attr_obj(st, r, o, one, name, node))
        for k in base.c:
            if k[0] == "NoneType":
                self.event("noneattr", node, name=name)
                continue
            outs.append(self.models.attr_scalar(
                st, V(c=frozenset([k]), d=base.d, s=base._s, x=base.x), name,
                node))
        if base.t:
            outs.append(self.models.attr_scalar(
                st, V(t=base.t, d=base.d, s=base._s, x=base.x), name, node))
        if not outs:
            return unk("any", base.d)
        return joinall(outs)

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        idx = self.ev_index(e.slice, st)
        return self.models.getitem(st, base, idx, e)

    def ev_index(self, sl, st):
        """index as V or ('slice', lo, hi, step) or list of those"""
        if isinstance(sl, ast.Slice):
            f = lambda x: self.ev(x, st) if x is not None else None
            return ("slice", f(sl.lower), f(sl.upper), f(sl.step))
        if isinstance(sl, ast.Tuple):
            return [self.ev_index(x, st) for x in sl.elts]
        return self.ev(sl, st)

    def e_Slice(self, e, st):
        f = lambda x: self.ev(x, st) if x is not None else NONE
        lo, hi, sp = f(e.lower), f(e.upper), f(e.step)
        return unk("any", lo.d | hi.d | sp.d)

    # ------------------------------------------------------ comprehensions
    def comp(self, e, st, kind):
        scope = ("comp", self.nid(e), self.ctx)
        self.scopes[scope] = self.cur
        save = self.cur
        results = []
        flat = [True]

        def go(gens, st):
            if not gens:
                self.cur = scope
                if kind == "dict":
                    k = self.ev(e.key, st)
                    v = self.ev(e.value, st)
                    results.append((k.add(self.pc), v.add(self.pc)))
                else:
                    results.append(self.ev(e.elt, st).add(self.pc))
                return
            g = gens[0]
            it = self.ev(g.iter, st)
            elems, summary, d = self.models.iterate(st, it, e)
            pc0 = self.pc
            self.pc = self.pc | d
            if elems is not None and len(elems) <= MAXUNROLL:
                ctx0 = self.ctx
                for n, x in enumerate(elems):
                    self.ctx = ctx0 + (("it", self.nid(g), n),)
                    self.assign(g.target, x, st)
                    self.filt(g, gens, st, go, flat)
                self.ctx = ctx0
            else:
                flat[0] = False
                self.in_fix += 1
                for _ in range(2):
                    n = len(results)
                    self.assign(g.target, summary, st)
                    self.filt(g, gens, st, go, flat)
                self.in_fix -= 1
            self.pc = pc0

        self.cur = scope
        self.in_comp += 1
        # first iterable is evaluated in the enclosing scope; same names
        go(list(e.generators), st)
        self.in_comp -= 1
        self.cur = save
        for k in [k for k in st.loc if k[0] == scope]:
            del st.loc[k]
        return results, flat[0]

    def filt(self, g, gens, st, go, flat):
        pc0 = self.pc
        ok = True
        for c in g.ifs:
            v = self.ev(c, st)
            t = self.truth(v, st)
            if t is False:
                ok = False
                break
            if t is None:
                flat[0] = False
            self.pc = self.pc | self.deps(st, v)
        if ok:
            go(gens[1:], st)
        self.pc = pc0

    def e_ListComp(self, e, st):
        res, flat = self.comp(e, st, "list")
        v = self.mkseq("list", res, flat, e, st)
        return self.comp_array(e, st, v, flat)

    def comp_array(self, e, st, v, flat):
        from . import loops
        if not flat:
            loops.comp_content(self, e, st, v)
        return v

    def mkseq(self, kind, res, flat, e, st):
        if flat:
            o = O(kind, items=tuple(res), deps=self.pc)
        else:
            o = O(kind, items=None, rest=joinall(res) if res else BOT,
                  deps=self.pc)
        return self.new(st, o, e)

    def e_SetComp(self, e, st):
        res, flat = self.comp(e, st, "list")
        return self.mkseq("set", res, False, e, st)

    def e_GeneratorExp(self, e, st):
        res, flat = self.comp(e, st, "list")
        return self.comp_array(e, st, self.mkseq("list", res, flat, e, st),
                               flat)

    def e_DictComp(self, e, st):
        res, flat = self.comp(e, st, "dict")
        items, rest = {}, None
        for k, v in res:
            if flat and len(k.c) == 1 and not (k.t or k.r or k.f):
                items[next(iter(k.c))] = v
            else:
                rest = v if rest is None else join(rest, v)
        return self.new(st, O("dict", items=items, rest=rest, deps=self.pc),
                        e)

    # --------------------------------------------------------------- calls
    def e_Call(self, e, st):
        args, stars = [], False
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.models.super_(st, e)
        fv = self.ev(e.func, st)
        star_extra = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                el, summ, _ = self.models.iterate(st, v, e)
                if el is not None:
                    args += el
                else:
                    star_extra = summ
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        kwrest = None
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                items, r = self.models.dict_view(st, v)
                for kk, x in items.items():
                    if kk[0] == "str":
                        kwargs[kk[1]] = x
                if r is not None:
                    kwrest = r if kwrest is None else join(kwrest, r)
            else:
                kwargs[k.arg] = v
        if self.dead(st):
            return BOT
        self.node_now = e
        return self.call(fv, args, kwargs, st, e, star_extra, kwrest)

    def call(self, fv, args, kwargs, st, node, star=None, kwrest=None):
        self.calls_seen += 1
        outs = []
        cands = []
        if fv.c and not (fv.t or fv.r or fv.f) and UNB not in fv.c:
            self.event("badcall", node, func="a constant")
            self.kill(st)
            return BOT
        for f in fv.f:
            cands.append(f)
        for r in fv.r:
            o = st.heap.get(r)
            if o is not None and o.kind == "inst" and isinstance(
                    o.cls, ClassInfo):
                c, m = o.cls.lookup("__call__")
                if m is not None:
                    for f in m.f:
                        cands.append(("bm", f, V(r=frozenset([r]))))
                    continue
            if o is not None and o.kind in ("extfn",):
                cands.append(("extobj", r))
                continue
            cands.append(("opaque", r))
        if fv.t or not cands:
            cands.append(("opaque", None))
        if len(cands) == 1:
            v = self.call1(cands[0], fv, args, kwargs, st, node, star,
                           kwrest)
            return v.add(fv.d)
        # several possible callees: join of effects
        res = None
        acc = None
        for c in cands:
            s = st.copy()
            v = self.call1(c, fv, args, kwargs, s, node, star, kwrest)
            if self.dead(s):
                continue
            acc = s if acc is None else join_states(acc, s)
            res = v if res is None else join(res, v)
        if acc is None:
            self.kill(st)
            return BOT
        st.loc, st.heap, st.ghost = acc.loc, acc.heap, acc.ghost
        return res.add(fv.d)

    def call1(self, f, fv, args, kwargs, st, node, star, kwrest):
        if isinstance(f, Closure):
            return self.call_user(f, args, kwargs, st, node, star, kwrest)
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kwargs, st, node, star, kwrest)
        if f[0] == "bm":
            inner = f[1]
            return self.call1(inner, fv, [f[2]] + list(args), kwargs, st,
                              node, star, kwrest)
        if f[0] == "partial":
            kw = dict(f[3])
            kw.update(kwargs)
            return self.call(f[1], list(f[2]) + list(args), kw, st, node,
                             star, kwrest)
        if f[0] == "am":
            return self.models.call_method(st, f[1], f[2], args, kwargs,
                                           node)
        if f[0] == "ext":
            return self.models.call_ext(st, f[1], args, kwargs, node, star,
                                        kwrest)
        if f[0] == "extobj":
            return self.models.call_obj(st, f[1], args, kwargs, node)
        if f[0] == "nt":
            return self.models.make_namedtuple(st, f, args, kwargs, node)
        return self.models.call_opaque(st, fv, args, kwargs, node)

    def instantiate(self, cls, args, kwargs, st, node, star, kwrest):
        oid = self.alloc(st, O("inst", cls=cls, attrs={}), node,
                         "inst:" + cls.qual)
        me = V(r=frozenset([oid]))
        _, init = cls.lookup("__init__")
        if init is not None:
            self.call(init, [me] + list(args), kwargs, st, node, star,
                      kwrest)
        elif any(isinstance(b, tuple) and b[0] == "nt" for b in cls.bases):
            b = [x for x in cls.bases if isinstance(x, tuple)][0]
            return self.models.make_namedtuple(st, b, args, kwargs, node,
                                               cls)
        return me

    def call_user(self, c, args, kwargs, st, node, star, kwrest):
        fn = c.func
        self.funcs_seen.add(fn.qual)
        if len(self.stack) > MAXDEPTH or sum(
                1 for x in self.stack if x.node is fn.node) >= 2:
            self.unsup("recursion into " + fn.qual, node)
            d = EMPTY
            for a in list(args) + list(kwargs.values()):
                d |= self.deps(st, a)
            return unk("any", d)
        hook = self.hooks.get(fn.qual)
        if hook is not None:
            r = hook(self, c, args, kwargs, st, node)
            if r is not None:
                return r
        a = fn.node.args
        loc = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                loc[pos[i]] = v
            else:
                extra.append(v)
        kwx = {}
        names = set(pos) | set(p.arg for p in a.kwonlyargs)
        bad = False
        for k, v in kwargs.items():
            if k in names:
                if k in loc:
                    bad = True
                if UNB in v.c and k in c.defaults:
                    # maybe-missing key of an unpacked dict
                    v = join(V(v.c - {UNB}, v.t, v.r, v.f, v.d, v._s),
                             c.defaults[k])
                loc[k] = v
            elif a.kwarg is not None:
                kwx[k] = v
            else:
                bad = True
        if extra and a.vararg is None:
            bad = True
        if bad:
            self.event("badcall", node, func=fn.qual)
            self.kill(st)
            return BOT
        for n in names:
            if n not in loc:
                if star is not None and n in pos:
                    loc[n] = star
                elif kwrest is not None:
                    loc[n] = join(kwrest, c.defaults[n]) \
                        if n in c.defaults else kwrest
                elif n in c.defaults:
                    loc[n] = c.defaults[n]
                else:
                    self.event("badcall", node, func=fn.qual, missing=n)
                    self.kill(st)
                    return BOT
        ctx0, cur0, pc0 = self.ctx, self.cur, self.pc
        frames0 = self.frames
        self.ctx = ctx0 + (self.nid(node),)
        scope = ("fn", c.nid, self.ctx)
        self.scopes[scope] = c.scope
        self.cur = scope
        self.stack.append(fn)
        if a.vararg is not None:
            if star is not None:
                loc[a.vararg.arg] = self.new(
                    st, O("tuple", items=None,
                          rest=joinall(extra + [star])), node, "va")
            else:
                loc[a.vararg.arg] = self.new(
                    st, O("tuple", items=tuple(extra)), node, "va")
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.new(
                st, O("dict", items={ck(k): v for k, v in kwx.items()},
                      rest=kwrest), node, "kw")
        saved = [k for k in st.loc if k[0] == scope]
        stash = {k: st.loc.pop(k) for k in saved}
        for k, v in loc.items():
            st.loc[(scope, k)] = v
        path0 = st.path
        st.path = tm.TRUE
        paths0 = self.paths
        self.paths = paths0 + (path0,)
        isgen = not isinstance(fn.node, ast.Lambda) and _is_gen(fn.node)
        if isgen:
            self.yields = self.yields + [[]]
        if isinstance(fn.node, ast.Lambda):
            v = self.ev(fn.node.body, st)
            rets = [] if self.dead(st) else [(st, v)]
            raises = []
        else:
            fl = self.block(fn.node.body, st)
            rets = fl.rets
            if fl.next is not None:
                rets.append((fl.next, NONE.add(fl.xret)))
            raises = fl.raises
        if isgen:
            ys = self.yields[-1]
            self.yields = self.yields[:-1]
        self.paths = paths0
        self.on_return(fn, rets, raises, node)
        self.stack.pop()
        self.cur, self.ctx, self.pc = cur0, ctx0, pc0
        if not rets:
            self.kill(st)
            return BOT
        # combine returns
        acc, val = None, None
        for s, v in reversed(rets):
            s = s.copy()
            if acc is None:
                acc, val = s, v
                continue
            ct = s.path
            if ct is not None:
                ct = self.decide(ct)
            new = {}
            if ct is not None:
                x = self.phi_value(s, acc, v, val, ct, new)
            acc = self.join_st(s, acc, ct)
            if new:
                for oid, o in new.items():
                    acc.heap[oid] = o
                val = x
            else:
                val = join(v, val, ct)
        keepscope = any(k[0] == scope for k in ())
        st.loc, st.heap, st.ghost = acc.loc, acc.heap, acc.ghost
        st.path = path0
        if not self.captured(fn):
            for k in [k for k in st.loc if k[0] == scope]:
                del st.loc[k]
        st.loc.update(stash)
        if not isgen and not self.in_comp:
            self.gc(st, val, scope[2])
        if isgen:
            val = self.new(st, O("list", items=None,
                                 rest=joinall(ys) if ys else BOT), node,
                           "gen")
        return val

    in_comp = 0
    nested = 0         # loops entered to find their closed form
    held = ()

    def gc(self, st, val, ctx):
        """drop what the finished call allocated and nothing refers to"""
        n = len(ctx)
        heap = st.heap
        mine = set(k for k in heap
                   if k[0].__class__ is tuple and k[0][:n] == ctx)
        if not mine:
            return
        stack = list(val.r)
        fns = list(val.f)
        for v in self.held:
            stack.extend(v.r)
            fns.extend(v.f)
        for v in st.loc.values():
            stack.extend(v.r)
            fns.extend(v.f)
        for k, o in heap.items():
            if k not in mine:
                if o.bases:
                    stack.extend(o.bases)
                for w in self.children(o):
                    stack.extend(w.r)
                    fns.extend(w.f)
        live = set()

        def addfn(f):
            if f.__class__ is tuple:
                for x in f:
                    if isinstance(x, V):
                        stack.extend(x.r)
                        for g in x.f:
                            addfn(g)
                    elif x.__class__ is tuple:
                        addfn(x)
            elif isinstance(f, Closure):
                for d in list(f.defaults.values()):
                    if isinstance(d, V):
                        stack.extend(d.r)
        for f in fns:
            addfn(f)
        while stack:
            k = stack.pop()
            if k in live:
                continue
            if k not in mine:
                continue
            live.add(k)
            o = heap[k]
            stack.extend(o.bases)
            if o.extra.__class__ is tuple:
                addfn(o.extra)
                for x in o.extra:
                    if x.__class__ is tuple:
                        for y in x:
                            if y.__class__ is tuple and len(y) and \
                                    y[0] in heap:
                                stack.append(y[0])
            for w in self.children(o):
                stack.extend(w.r)
                for f in w.f:
                    addfn(f)
        for k in mine - live:
            del heap[k]

    hooks = {}
    draw = None                    # told what is drawn
    minimum = None                 # stands in for scipy's minimize

    def on_return(self, fn, rets, raises, node):
        pass

    def captured(self, fn):
        c = getattr(fn.node, "_captured", None)
        if c is None:
            c = any(isinstance(n, (ast.FunctionDef, ast.Lambda))
                    for n in ast.walk(fn.node) if n is not fn.node)
            fn.node._captured = c
        return c


def _ident(i):
    return i


def _same_content(a, b, r):
    x, y = a.heap.get(r), b.heap.get(r)
    if x is None or y is None:
        return True
    return x.content is y.content


def _mulx(x, y):
    (a, sa), (b, sb) = x, y
    if a is None and b is None:
        return (None, sa * sb)
    if a is None:
        if b == 0:
            return (Fraction(0), 0)
        return (None, sa * (1 if b > 0 else -1))
    if b is None:
        if a == 0:
            return (Fraction(0), 0)
        return (None, sb * (1 if a > 0 else -1))
    return (a * b, 0)


def _as_load(t):
    import copy
    n = getattr(t, "_load", None)
    if n is None:
        n = copy.copy(t)
        n.ctx = ast.Load()
        n._nid = None
        del n._nid
        t._load = n
    return n


def _dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = _dotted(e.value)
        return b + "." + e.attr if b else None
    return None


def _is_gen(node):
    r = getattr(node, "_isgen", None)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        node._isgen = r
    return r
