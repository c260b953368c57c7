"""Abstract values and states of the analyser.

A value ``V`` is a product of
  c : set of possible constants        t : type tags of unknown scalars
  r : heap objects it may point to      f : callables it may be
  d : labels it depends on (data and control)
  s : its value number (a terms.P) when it is a scalar whose computation is
      fully understood, else None
"""
from . import terms as tm

EMPTY = frozenset()
MAXC = 24


class V(object):
    __slots__ = ("c", "t", "r", "f", "d", "_s", "_h", "x")

    def __init__(self, c=EMPTY, t=EMPTY, r=EMPTY, f=EMPTY, d=EMPTY, s=None,
                 x=None):
        self.c, self.t, self.r, self.f, self.d, self._s = c, t, r, f, d, s
        self.x = x            # string pattern (see strpat)
        self._h = None

    @property
    def s(self):
        if self._s is not None:
            return self._s
        if len(self.c) == 1 and not (self.t or self.r or self.f):
            k = next(iter(self.c))
            if k[0] in ("int", "float", "bool", "complex"):
                try:
                    return tm.num(k[1])
                except (ValueError, OverflowError):
                    return None
        return None

    def key(self):
        return (self.c, self.t, self.r, self.f, self.d, self._s, self.x)

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self.key() == o.key())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __repr__(self):
        b = []
        if self.c:
            b.append("c=%s" % sorted(repr(k[1]) for k in self.c))
        if self.t:
            b.append("t=%s" % sorted(self.t))
        if self.r:
            b.append("r=%s" % sorted(map(str, self.r)))
        if self.f:
            b.append("f=%s" % list(self.f))
        if self.d:
            b.append("d=%s" % sorted(self.d))
        if self._s is not None:
            b.append("s=%s" % tm.show(self._s, 120))
        return "V(%s)" % ", ".join(b)

    def add(self, deps):
        if not deps or deps <= self.d:
            return self
        return V(self.c, self.t, self.r, self.f, self.d | deps, self._s,
                 self.x)

    def nos(self):
        if self._s is None:
            return self
        return V(self.c, self.t, self.r, self.f, self.d, None, self.x)

    def with_s(self, s):
        return V(self.c, self.t, self.r, self.f, self.d, s, self.x)

    @property
    def bottom(self):
        return not (self.c or self.t or self.r or self.f)


BOT = V()


def ck(v):
    """constant key"""
    return (type(v).__name__, v)


def const(v, d=EMPTY):
    return V(c=frozenset([ck(v)]), d=d)


NONE = const(None)
UNB = ("<unbound>", "<unbound>")
UNBOUND = V(c=frozenset([UNB]))
TRUEV, FALSEV = const(True), const(False)


def unk(tag, d=EMPTY, s=None):
    return V(t=frozenset([tag]), d=d, s=s)


def scalar(s, tag="num", d=EMPTY):
    return V(t=frozenset([tag]), d=d, s=s)


_TAGOF = {"int": "int", "float": "float", "bool": "bool", "str": "str",
          "complex": "complex", "NoneType": "none", "bytes": "bytes",
          "ellipsis": "any"}


def join(a, b, cond=None):
    if a is b:
        return a
    if a == b:
        return a
    c = a.c | b.c
    t = a.t | b.t
    if len(c) > MAXC:
        keep = set()
        tags = set(t)
        for k in c:
            if k[0] in ("NoneType", "<unbound>"):
                keep.add(k)
            else:
                tags.add(_TAGOF.get(k[0], "any"))
        c, t = frozenset(keep), frozenset(tags)
    s = None
    sa, sb = a.s, b.s
    if sa is not None and sb is not None:
        if sa is sb:
            s = sa
        elif cond is not None:
            try:
                s = tm.phi(cond, sa, sb)
            except tm.TooBig:
                s = None
    x = a.x if a.x == b.x else altjoin(a, b)
    if x is None and a.x is None and a.d != b.d and a.t == STRT and \
            b.t == STRT:
        x = altjoin(a, b)
    return V(c, t, a.r | b.r, a.f | b.f, a.d | b.d, s, x)


STRT = frozenset(["str"])


def alts(v):
    """the string layouts a pure string value may have, or None"""
    if v.r or v.f or not v.t <= STRT:
        return None
    out = []
    for k in v.c:
        if k[0] != "str":
            return None
        out.append((("L", k[1]),))
    if v.t:
        if v.x is not None:
            out += list(v.x[1]) if v.x[0] == "ALT" else [v.x]
        else:
            what = v.s
            if what is None:
                what = ("deps",) + tuple(sorted(map(str, v.d)))
            out.append((("H", what, ""),))
    return out


def altjoin(a, b):
    x, y = alts(a), alts(b)
    if x is None or y is None or not (a.t or b.t):
        return None
    for z in y:
        if z not in x:
            x.append(z)
    if len(x) > 6:
        return None
    return x[0] if len(x) == 1 else ("ALT", tuple(x))


def joinall(vs):
    out = BOT
    for v in vs:
        out = v if out is BOT else join(out, v)
    return out


# ---------------------------------------------------------------------------
class O(object):
    """Heap object (immutable record; replaced on update)."""
    __slots__ = ("kind", "cls", "attrs", "items", "rest", "origin", "deps",
                 "bases", "rank", "view", "shape", "weak", "content", "dtype",
                 "wr", "extra")

    def __init__(self, kind, **kw):
        self.kind = kind
        self.cls = kw.get("cls")
        self.attrs = kw.get("attrs")          # dict name -> V  (inst)
        self.items = kw.get("items")          # list: tuple of V | None;
        #                                       dict: dict const-> V
        self.rest = kw.get("rest")            # summary element V | None
        self.origin = kw.get("origin", "fresh")
        self.deps = kw.get("deps", EMPTY)
        self.bases = kw.get("bases", EMPTY)   # array: region ids
        self.rank = kw.get("rank")
        self.view = kw.get("view")            # array: idx -> region idx
        self.shape = kw.get("shape")          # array: tuple of P|None
        self.content = kw.get("content")      # region: idx -> P
        self.dtype = kw.get("dtype")          # region
        self.wr = kw.get("wr", frozenset([True]))  # region: writeable flags
        self.weak = kw.get("weak", False)
        self.extra = kw.get("extra")

    def rep(self, **kw):
        o = O.__new__(O)
        for n in O.__slots__:
            setattr(o, n, kw[n] if n in kw else getattr(self, n))
        return o

    def same(self, o):
        if self is o:
            return True
        for n in O.__slots__:
            x, y = getattr(self, n), getattr(o, n)
            if x is not y and not (n not in ("content", "view") and x == y):
                return False
        return True

    def __repr__(self):
        return "O(%s %s origin=%s)" % (self.kind, self.cls or "", self.origin)


def join_attr(a, b, cond):
    """join two attribute dicts; a missing key is UNBOUND"""
    if a is b:
        return a
    out = {}
    for k in list(a) + [k for k in b if k not in a]:
        out[k] = join(a.get(k, UNBOUND), b.get(k, UNBOUND), cond)
    return out


def join_obj(a, b, cond):
    if a is b:
        return a
    kw = dict(deps=a.deps | b.deps, weak=a.weak or b.weak,
              origin=a.origin if a.origin == b.origin else "fresh")
    if a.kind != b.kind:
        return O("mixed", **kw)
    kw.update(cls=a.cls if a.cls == b.cls else None)
    if a.attrs is not None or b.attrs is not None:
        kw["attrs"] = join_attr(a.attrs or {}, b.attrs or {}, cond)
    rest = a.rest
    if b.rest is not None:
        rest = b.rest if rest is None else join(rest, b.rest)
    if a.kind in ("list", "tuple", "set", "slice"):
        if a.items is not None and b.items is not None \
                and len(a.items) == len(b.items):
            kw["items"] = tuple(join(x, y, cond)
                                for x, y in zip(a.items, b.items))
        else:
            for it in (a.items, b.items):
                for x in it or ():
                    rest = x if rest is None else join(rest, x)
            kw["items"] = None
            if rest is None:
                rest = BOT
    elif a.kind == "dict":
        kw["items"] = join_attr(a.items, b.items, cond)
    kw["rest"] = rest
    if a.kind == "array":
        kw["bases"] = a.bases | b.bases
        kw["rank"] = a.rank if a.rank == b.rank else None
        kw["view"] = a.view if (a.view is b.view and a.bases == b.bases) \
            else None
        kw["shape"] = _jshape(a.shape, b.shape)
    if a.kind == "region":
        kw["rank"] = a.rank if a.rank == b.rank else None
        kw["dtype"] = a.dtype if a.dtype == b.dtype else None
        kw["wr"] = a.wr | b.wr
        kw["shape"] = _jshape(a.shape, b.shape)
        ca, cb = a.content, b.content
        if ca is cb:
            kw["content"] = ca
        elif ca is not None and cb is not None and cond is not None:
            kw["content"] = lambda i, ca=ca, cb=cb, cond=cond: tm.phi(
                cond, ca(i), cb(i))
        else:
            kw["content"] = None
    if a.extra == b.extra:
        kw["extra"] = a.extra
    elif isinstance(a.extra, frozenset) and isinstance(b.extra, frozenset):
        kw["extra"] = a.extra | b.extra
    return O(a.kind, **kw)


def _jshape(a, b):
    if a is b or a == b:
        return a
    if a is None or b is None or len(a) != len(b):
        return None
    return tuple(x if x is y else None for x, y in zip(a, b))


class State(object):
    __slots__ = ("loc", "heap", "path", "ghost")

    def __init__(self, loc=None, heap=None, path=None, ghost=None):
        self.loc = loc if loc is not None else {}
        self.heap = heap if heap is not None else {}
        self.path = path if path is not None else tm.TRUE
        self.ghost = ghost if ghost is not None else EMPTY

    def copy(self):
        out = State(dict(self.loc), dict(self.heap), None, self.ghost)
        out.path = self.path
        return out

    def same(self, o):
        if self.ghost != o.ghost:
            return False
        if len(self.loc) != len(o.loc) or len(self.heap) != len(o.heap):
            return False
        for k, v in self.loc.items():
            w = o.loc.get(k)
            if w is not v and w != v:
                return False
        for k, v in self.heap.items():
            w = o.heap.get(k)
            if w is not v and (w is None or not v.same(w)):
                return False
        return True


def join_states(a, b, cond=None, path=None):
    """join; ``cond`` is the term under which ``a`` holds"""
    if a is None:
        return b
    if b is None:
        return a
    loc = {}
    for k in a.loc.keys() | b.loc.keys():
        x, y = a.loc.get(k, UNBOUND), b.loc.get(k, UNBOUND)
        loc[k] = x if x is y else join(x, y, cond)
    heap = {}
    for k, x in a.heap.items():
        y = b.heap.get(k)
        heap[k] = x if (y is None or y is x) else join_obj(x, y, cond)
    for k, y in b.heap.items():
        if k not in heap:
            heap[k] = y
    out = State(loc, heap, None, a.ghost | b.ghost)
    out.path = path if path is not None else a.path
    return out
