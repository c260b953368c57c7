"""Models of Python built-ins, numpy/scipy and matplotlib for the abstract
interpreter.  Everything not listed here is an opaque call: its result is
fresh, depends on all arguments, and it modifies none of them."""
import ast
import itertools
from fractions import Fraction
import math
import operator

from . import terms as tm
from . import interp as ip
from . import strpat
from .values import (V, O, State, BOT, NONE, UNB, UNBOUND, TRUEV, FALSEV,
                     EMPTY, const, ck, unk, scalar, join, joinall)

FRESHSTR = "freshstr"      # a string equal to no literal of the program

_BIN = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul,
        "Div": operator.truediv, "FloorDiv": operator.floordiv,
        "Mod": operator.mod, "Pow": operator.pow, "BitAnd": operator.and_,
        "BitOr": operator.or_, "BitXor": operator.xor,
        "LShift": operator.lshift, "RShift": operator.rshift}

_CMP = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt,
        "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}

NUMTAGS = {"int", "float", "bool", "complex", "num"}

# numpy elementwise functions -> canonical name
ELEM1 = {
    "abs": "abs", "absolute": "abs", "fabs": "abs", "exp": "exp",
    "log": "ln", "log10": "log10", "log2": "log2", "sqrt": "sqrt",
    "sin": "sin", "cos": "cos", "tan": "tan", "tanh": "tanh",
    "sinh": "sinh", "cosh": "cosh", "arctan": "arctan", "angle": "angle",
    "conj": "conj", "conjugate": "conj", "real_": "re", "imag_": "im",
    "isnan": "isnan", "isfinite": "isfinite", "isinf": "isinf",
    "invert": "not", "logical_not": "not", "negative": "neg",
    "positive": "pos", "square": "square", "sign": "sign",
    "floor": "floor", "ceil": "ceil", "trunc": "trunc", "rint": "rint",
    "log1p": "log1p", "expm1": "expm1", "reciprocal": "recip",
    "nan_to_num": "nan_to_num", "deg2rad": "deg2rad", "sinc": "sinc",
    "round": "round", "around": "round", "round_": "round",
}
ELEM2 = {"add": "Add", "subtract": "Sub", "multiply": "Mult",
         "divide": "Div", "true_divide": "Div", "power": "Pow",
         "float_power": "Pow", "floor_divide": "FloorDiv", "mod": "Mod",
         "remainder": "Mod",
         "logical_and": "BitAnd", "logical_or": "BitOr",
         "bitwise_and": "BitAnd", "bitwise_or": "BitOr",
         "less": "Lt", "less_equal": "LtE", "greater": "Gt",
         "greater_equal": "GtE", "equal": "Eq", "not_equal": "NotEq",
         "maximum": "max2", "minimum": "min2", "fmax": "max2",
         "fmin": "min2", "arctan2": "arctan2", "hypot": "hypot"}
REDUCE = {"sum", "min", "max", "mean", "median", "argmin", "argmax", "any",
          "all", "prod", "std", "var", "ptp", "nanmin", "nanmax", "nanmean",
          "nanargmin", "nanargmax", "nansum", "nanmedian", "amin", "amax",
          "average", "count_nonzero", "trapz", "trapezoid"}
VIEWFUN = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "ravel",
           "reshape", "transpose", "squeeze", "swapaxes", "moveaxis",
           "broadcast_to", "ascontiguousarray", "asfarray", "expand_dims",
           "flip", "fliplr", "flipud", "rollaxis", "real", "imag",
           "diagonal", "rot90"}
RETARR = {"interp", "convolve", "linspace", "arange", "zeros", "ones",
          "empty", "full", "eye", "identity", "zeros_like", "ones_like",
          "empty_like", "full_like", "array", "copy", "append",
          "concatenate", "vstack", "hstack", "stack", "column_stack",
          "dstack", "delete", "insert", "cumsum", "cumprod", "gradient",
          "diff", "sort", "argsort", "unique", "polyfit", "polyval",
          "outer", "dot", "matmul", "einsum", "tile", "repeat", "roll",
          "where_", "nonzero", "flatnonzero", "fft", "ifft", "genfromtxt",
          "loadtxt", "kron", "searchsorted", "isin", "in1d", "digitize",
          "clip_", "select", "inner", "cross", "logspace", "geomspace",
          "unwrap", "array_split", "split", "meshgrid_", "flatten",
          "lexsort", "savgol_filter", "hilbert", "gaussian_filter1d",
          "gaussian_filter", "medfilt", "filtfilt", "lfilter", "inv",
          "pinv", "solve", "lstsq"}
RANK1 = {"linspace", "arange", "interp", "convolve", "append", "cumsum",
         "sort", "argsort", "savgol_filter", "polyfit", "diff", "unique",
         "flatnonzero", "logspace", "geomspace", "delete", "searchsorted"}
CREATE = {"zeros": 0, "ones": 1, "empty": None, "full": "v"}

MUTATING_METHODS = {"sort", "fill", "resize", "put", "itemset", "partition",
                    "setflags", "setfield", "byteswap_inplace"}

EXT_CONST = {
    "numpy.pi": ("pi",), "math.pi": ("pi",), "scipy.constants.pi": ("pi",),
    "scipy.pi": ("pi",),
}
SCI = {"yotta": 24, "zetta": 21, "exa": 18, "peta": 15, "tera": 12,
       "giga": 9, "mega": 6, "kilo": 3, "hecto": 2, "deka": 1, "deci": -1,
       "centi": -2, "milli": -3, "micro": -6, "nano": -9, "pico": -12,
       "femto": -15, "atto": -18}
SCATOM = {"h": "sc.h", "Planck": "sc.h", "e": "sc.e",
          "elementary_charge": "sc.e", "k": "sc.k", "Boltzmann": "sc.k",
          "c": "sc.c", "speed_of_light": "sc.c", "hbar": None,
          "epsilon_0": "sc.eps0", "mu_0": "sc.mu0", "m_e": "sc.m_e"}

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) \
    else set(__builtins__)


class View(object):
    """Affine view: region index as a function of the array index.
    entries: one per region axis, ('i', P) fixed or ('s', k, lo, step)."""
    __slots__ = ("entries",)

    def __init__(self, entries):
        self.entries = entries

    def __call__(self, idx):
        out = []
        for e in self.entries:
            if e[0] == "i":
                out.append(e[1])
            else:
                _, k, lo, step = e
                i = idx[k]
                if step != 1:
                    i = i * step
                out.append(i + lo if lo is not None else i)
        return tuple(out)

    def __eq__(self, o):
        return isinstance(o, View) and self.entries == o.entries

    def __hash__(self):
        return hash(self.entries)


def ident_view(rank):
    return View(tuple(("s", k, None, 1) for k in range(rank)))


class Models(object):
    def __init__(self, it):
        self.it = it
        self.builtins = BUILTINS | {"__name__", "__file__"}

    # ----------------------------------------------------------- constants
    def ext_value(self, name):
        """value of an external constant, or None"""
        if name in EXT_CONST:
            return scalar(tm.PI, "float")
        if name.startswith("scipy.constants."):
            n = name.rsplit(".", 1)[1]
            if n in SCI:
                e = SCI[n]
                return const(float("1e%d" % e))
            if n == "hbar":
                return scalar(tm.atom("sc.h", pos=True) / (tm.PI * 2),
                              "float")
            if n in SCATOM:
                return scalar(tm.atom(SCATOM[n], pos=True), "float")
            if n == "eV" or n == "electron_volt":
                return scalar(tm.atom("sc.e", pos=True), "float")
        if name in ("numpy.nan", "math.nan", "numpy.NaN"):
            return scalar(tm.atom("nan"), "float")
        if name in ("numpy.inf", "math.inf"):
            return scalar(tm.atom("inf", pos=True), "float")
        if name in ("numpy.newaxis",):
            return NONE
        if name == "sys.stdout" or name == "sys.stderr":
            return V(f=frozenset([("ext", name)]))
        return None

    def attr_callable(self, st, f, name, node):
        it = self.it
        if isinstance(f, tuple) and f[0] == "mod":
            mod = f[1]
            sub = mod + "." + name
            v = None
            if mod in it.p.modules:
                it.load(mod)
                v = st.loc.get((("mod", mod), name))
                if v is None:
                    v = it.base.loc.get((("mod", mod), name))
            if v is not None:
                return v
            if sub in it.p.modules:
                it.load(sub)
                return V(f=frozenset([("mod", sub)]))
            it.event("unbound", node, name=sub, always=True)
            return unk("any")
        if isinstance(f, tuple) and f[0] == "ext":
            full = f[1] + "." + name
            full = full.replace("matplotlib.pyplot", "plt") \
                if full.startswith("matplotlib.pyplot.") else full
            k = self.ext_value(full)
            if k is not None:
                return k
            return V(f=frozenset([("ext", full)]))
        if isinstance(f, ip.ClassInfo):
            c, m = f.lookup(name)
            if m is not None:
                if name in c.clsm:
                    return V(f=frozenset(("bm", g, V(f=frozenset([f])))
                                         for g in m.f))
                return m
            if f.prop(name) is not None:
                return unk("any")
            if name in ("__name__", "__doc__", "__module__", "__qualname__"):
                return unk("str")
            if name == "__init__":
                return V(f=frozenset([("ext", "builtins.object.__init__")]))
            for b in f.bases:
                if isinstance(b, tuple):
                    return V(f=frozenset([("ext", "%s.%s" % (b[1], name))]))
            it.event("unbound", node, name="." + name, always=True)
            return unk("any")
        if isinstance(f, ip.Closure):
            if name in ("__name__", "__doc__", "__qualname__", "__module__"):
                return unk("str")
            return unk("any")
        if isinstance(f, tuple) and f[0] == "nt":
            return unk("any")
        if isinstance(f, tuple) and f[0] == "am":
            return unk("any")
        return unk("any")

    # ---------------------------------------------------------- attributes
    def attr_obj(self, st, oid, o, one, name, node):
        it = self.it
        if o.kind == "array":
            if name == "T":
                return self.view_fun(st, "transpose", [one], {}, node)
            if name in ("real", "imag"):
                return self.view_fun(st, name, [one], {}, node)
            if name == "shape":
                return self.shape_tuple(st, one, o, node)
            if name == "ndim":
                d = it.deps(st, one)
                if o.rank is not None:
                    return V(c=frozenset([ck(o.rank)]), d=d)
                s = o.extra.get("ndim") if isinstance(o.extra, dict) else None
                return unk("int", d, s)
            if name == "size":
                s = None
                if o.rank == 1 and o.shape:
                    s = o.shape[0]
                return unk("int", it.deps(st, one), s)
            if name == "dtype":
                return unk("any", o.deps)
            if name == "flags":
                return it.new(st, O("flags", bases=o.bases), node, "fl",
                              one.d)
            if name == "flat":
                return V(r=frozenset([it.alloc(
                    st, o.rep(rank=None, view=None, shape=None,
                              content=None, extra=None), node, "flat")]))
            return V(f=frozenset([("am", one, name)]))
        if o.kind in ("list", "dict", "set", "tuple", "file", "iter",
                      "range"):
            return V(f=frozenset([("am", one, name)]))
        if o.kind == "fig":
            if name == "axes":
                return unk("any")
            return V(f=frozenset([("am", one, name)]))
        if o.kind == "axes":
            if name in ("figure",):
                return self.fig_of(st, oid)
            return V(f=frozenset([("am", one, name)]))
        if o.kind == "inst":
            # namedtuple or foreign instance
            it.event("unbound", node, name="." + name, always=True)
            return unk("any")
        if o.kind in ("ext", "extfn"):
            return V(f=frozenset([("am", one, name)]))
        return unk("any", it.deps(st, one))

    def attr_scalar(self, st, v, name, node):
        if name in ("real", "imag"):
            s = v.s
            if s is not None:
                s = tm.re(s) if name == "real" else tm.im(s)
            if v.t & {"any", "num", "complex"} or any(
                    k[0] == "complex" for k in v.c):
                return V(t=frozenset(["float"]), d=v.d, s=s)
            return V(t=frozenset(["float"]), d=v.d, s=s)
        if name in ("shape", "ndim", "size", "dtype", "T"):
            if v.t and "any" in v.t:
                s = v.s
                return unk("any", v.d)
            self.it.event("scalarattr", node, name=name)
            return unk("any", v.d)
        return V(f=frozenset([("am", v, name)]))

    def shape_tuple(self, st, one, o, node):
        it = self.it
        d = it.deps(st, one)
        if o.rank is None:
            return it.new(st, O("tuple", items=None,
                                rest=unk("int", d)), node, "shape")
        sh = o.shape or (None,) * o.rank
        items = []
        for p in sh:
            if p is None:
                items.append(unk("int", d))
            elif p.rational is not None and p.rational.denominator == 1:
                items.append(V(c=frozenset([ck(int(p.rational))]), d=d))
            else:
                items.append(unk("int", d, p))
        return it.new(st, O("tuple", items=tuple(items)), node, "shape")

    # -------------------------------------------------------------- truth
    def bool_and(self, a, b, st):
        ta, tb = self.it.truth(a, st), self.it.truth(b, st)
        d = a.d | b.d
        if ta is False:
            return a
        if ta is True:
            return b.add(a.d)
        if a.t <= {"bool"} and not a.r and not a.f and b.t <= {"bool"} \
                and not b.r and not b.f:
            if tb is False:
                return FALSEV.add(d)
            s = None
            if a.s is not None and b.s is not None:
                s = a.s * b.s
            return V(c=a.c | b.c, t=a.t | b.t, d=d, s=s)
        # a falsy or b
        fa = V(frozenset(k for k in a.c if not k[1]), a.t - {"none"}, a.r,
               EMPTY, a.d)
        return join(fa, b).add(d).nos()

    def bool_or(self, a, b, st):
        ta, tb = self.it.truth(a, st), self.it.truth(b, st)
        d = a.d | b.d
        if ta is True:
            return a
        if ta is False:
            return b.add(a.d)
        if a.t <= {"bool"} and not a.r and not a.f and b.t <= {"bool"} \
                and not b.r and not b.f:
            if tb is True:
                return TRUEV.add(d)
            s = None
            if a.s is not None and b.s is not None:
                s = tm.lor(a.s, b.s)
            return V(c=a.c | b.c, t=a.t | b.t, d=d, s=s)
        fa = V(frozenset(k for k in a.c if k == UNB or k[1]), a.t, a.r, a.f,
               a.d)
        return join(fa, b).add(d).nos()

    # ------------------------------------------------------------ compare
    def compare(self, op, a, b, st, node):
        it = self.it
        d = it.deps(st, a) | it.deps(st, b)
        if op in ("Is", "IsNot"):
            d = a.d | b.d
            r = self.identical(a, b, st)
            if r is None:
                return unk("bool", d)
            return const(r if op == "Is" else not r, d)
        if op in ("In", "NotIn"):
            return self.contains(op, a, b, st, node, d)
        oa, ob = self.arrish(st, a), self.arrish(st, b)
        if oa or ob:
            return self.elementwise(
                st, [a, b], node, lambda x, y: self.cmp_term(op, x, y),
                dtype="bool")
        s = None
        if a.s is not None and b.s is not None and self.numlike(a) \
                and self.numlike(b):
            s = it.decide(self.cmp_term(op, a.s, b.s))
            k = s.rational
            if k is not None:
                return const(bool(k), d)
        res = set()
        known = bool(a.c) and bool(b.c) and not (a.t or b.t)
        if known and not (a.r or b.r or a.f or b.f):
            for x in a.c:
                for y in b.c:
                    if x == UNB or y == UNB:
                        continue
                    try:
                        res.add(bool(_CMP[op](x[1], y[1])))
                    except Exception:
                        res.add(None)
            if len(res) == 1 and None not in res:
                return const(res.pop(), d)
        if FRESHSTR in a.t | b.t and op in ("Eq", "NotEq"):
            x, y = (a, b) if FRESHSTR in a.t else (b, a)
            if not x.c and x.t == {FRESHSTR} and y.c and not y.t:
                return const(op == "NotEq", d)
        if op in ("Eq", "NotEq"):
            # None vs something else, strings vs numbers
            ka, kb = self.kindset(st, a), self.kindset(st, b)
            if ka and kb and not (ka & kb) and "any" not in ka | kb:
                return const(op == "NotEq", d)
        return unk("bool", d, s)

    def kindset(self, st, v):
        out = set()
        for k in v.c:
            n = k[0]
            out.add("num" if n in ("int", "float", "bool", "complex") else n)
        for t in v.t:
            if t in NUMTAGS:
                out.add("num")
            elif t in ("str", FRESHSTR):
                out.add("str")
            elif t == "none":
                out.add("NoneType")
            else:
                out.add("any")
        for r in v.r:
            o = st.heap.get(r)
            k = o.kind if o else "any"
            out.add("any" if k in ("ext", "mixed", "array", "inst") else k)
        if v.f:
            out.add("fn")
        return out

    def numlike(self, v):
        return not v.r and not v.f and all(
            k[0] in ("int", "float", "bool", "complex") for k in v.c) and \
            v.t <= (NUMTAGS | {"any"})

    def cmp_term(self, op, x, y):
        if op == "Lt":
            return tm.gt0(y - x)
        if op == "LtE":
            return tm.ge0(y - x)
        if op == "Gt":
            return tm.gt0(x - y)
        if op == "GtE":
            return tm.ge0(x - y)
        if op == "Eq":
            return tm.eq0(x - y)
        return tm.lnot(tm.eq0(x - y))

    def identical(self, a, b, st):
        if b.c == frozenset([ck(None)]) and not (b.t or b.r or b.f):
            x = a
        elif a.c == frozenset([ck(None)]) and not (a.t or a.r or a.f):
            x = b
        else:
            if a.c and b.c and not (a.t or a.r or a.f or b.t or b.r or b.f):
                if not (a.c & b.c):
                    return False
                if len(a.c) == 1 and a.c == b.c and next(
                        iter(a.c))[0] in ("bool", "NoneType"):
                    return True
            ka = (a.c or a.t, a.r, a.f)
            if a.f and b.f and not (a.c or a.t or a.r or b.c or b.t or b.r):
                if not (a.f & b.f):
                    return False
                if len(a.f) == 1 and a.f == b.f:
                    return True
            return None
        isnone = ck(None) in x.c or "none" in x.t
        maybe = "any" in x.t
        other = bool(x.r or x.f or (x.c - {ck(None), UNB})
                     or (x.t - {"none", "any"}))
        if maybe:
            return None
        if isnone and not other:
            return True
        if not isnone:
            return False
        return None

    def contains(self, op, a, b, st, node, d):
        it = self.it
        elems, summ, _ = self.iterate(st, b, node)
        neg = op == "NotIn"
        for r in b.r:
            o = st.heap.get(r)
            if o is not None and o.kind == "dict":
                elems = [V(c=frozenset([k])) for k, x in o.items.items()
                         if UNB not in x.c]
                if o.rest is not None or len(elems) != len(o.items):
                    # unknown extra keys: only a definite hit is known
                    if a.c and not a.t and a.c <= frozenset(
                            k for k, x in o.items.items()
                            if UNB not in x.c):
                        return const(not neg, d)
                    return unk("bool", d)
        if b.c and not (b.t or b.r or b.f) and a.c and not (a.t or a.r):
            res = set()
            for x in a.c:
                for y in b.c:
                    try:
                        res.add(x[1] in y[1])
                    except Exception:
                        res.add(None)
            if len(res) == 1 and None not in res:
                return const(res.pop() != neg, d)
            return unk("bool", d)
        if b.x is not None and b.x[0] != "ALT" and a.c and not a.t:
            k = strpat.contains(b.x, next(iter(a.c))[1])
            if k is not None:
                return const(k != neg, d)
        if elems is None:
            return unk("bool", d)
        out = FALSEV
        for e in elems:
            out = self.bool_or(out, self.compare("Eq", a, e, st, node), st)
            if it.truth(out, st) is True:
                return const(not neg, d)
        t = it.truth(out, st)
        if t is not None:
            return const(t != neg, d)
        s = out.s
        if s is not None and neg:
            s = tm.lnot(s)
        return unk("bool", d, s)

    # --------------------------------------------------------- arithmetic
    def arrish(self, st, v):
        for r in v.r:
            o = st.heap.get(r)
            if o is not None and o.kind == "array":
                return True
        return False

    def binop(self, op, a, b, st, node):
        it = self.it
        if self.arrish(st, a) or self.arrish(st, b):
            dt = None
            if op in ("BitAnd", "BitOr", "BitXor"):
                dt = "bool"
            out = self.elementwise(
                st, [a, b], node, lambda x, y: self.arith(op, x, y),
                dtype=dt)
            if op == "Div":
                for r in out.r:
                    if st.heap[r].dtype == "int":
                        st.heap[r] = st.heap[r].rep(dtype="float")
            return out
        d = it.deps(st, a) | it.deps(st, b)
        # sequences
        seqs = [r for v in (a, b) for r in v.r if st.heap.get(r) is not None
                and st.heap[r].kind in ("list", "tuple")]
        if seqs and op in ("Add", "Mult"):
            return self.seq_op(op, a, b, st, node)
        if op == "Add" and self.stringy(a) and self.stringy(b):
            return strpat.concat(self.it, a, b)
        if op == "Mod" and self.stringy(a):
            return strpat.percent(self.it, a, b, st, node)
        if op == "Mult" and (self.stringy(a) or self.stringy(b)):
            if a.c and b.c and not (a.t or b.t) and len(a.c) == 1 \
                    and len(b.c) == 1:
                try:
                    return const(next(iter(a.c))[1] * next(iter(b.c))[1], d)
                except Exception:
                    pass
            return unk("str", d)
        # dunder methods on project instances are not used here
        cs = None
        if a.c and b.c and not (a.t or b.t or a.r or b.r or a.f or b.f) \
                and len(a.c) * len(b.c) <= 32:
            cs = set()
            for x in a.c:
                for y in b.c:
                    if x == UNB or y == UNB:
                        continue
                    try:
                        k = _BIN[op](x[1], y[1]) if op in _BIN else None
                        if k is None or (isinstance(k, float) and k != k) \
                                or (isinstance(k, int)
                                    and abs(k) > 10 ** 30):
                            cs = None
                            break
                        cs.add(ck(k))
                    except Exception:
                        continue
                if cs is None:
                    break
        s = None
        if a.s is not None and b.s is not None and self.numlike(a) \
                and self.numlike(b):
            try:
                s = self.arith(op, a.s, b.s)
            except (tm.TooBig, ZeroDivisionError, OverflowError):
                s = None
        if cs:
            return V(c=frozenset(cs), d=d,
                     s=None if len(cs) == 1 and _intlike(cs) else s)
        t = self.numtag(op, a, b)
        if s is not None and s.rational is not None \
                and not s.terms:
            pass
        return V(t=frozenset([t]), d=d, s=s)

    def stringy(self, v):
        return (not v.r and not v.f and (v.c or v.t) and all(
            k[0] == "str" for k in v.c) and v.t <= {"str", FRESHSTR})

    def numtag(self, op, a, b):
        tags = set()
        if a.f or b.f or a.r or b.r:
            return "any"
        for v in (a, b):
            for k in v.c:
                tags.add(k[0])
            tags |= v.t
        if "any" in tags or tags - NUMTAGS:
            return "any"
        if op in ("BitAnd", "BitOr") and tags <= {"bool"}:
            return "bool"
        if "complex" in tags:
            return "complex"
        if "num" in tags:
            return "num"
        if op == "Div":
            return "float"
        if "float" in tags:
            return "float"
        return "int"

    def arith(self, op, x, y):
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mult":
            return x * y
        if op == "Div":
            return x / y
        if op == "Pow":
            return tm.powgen(x, y)
        if op == "BitAnd":
            return x * y
        if op == "BitOr":
            return tm.lor(x, y)
        if op == "BitXor":
            return x + y - x * y * 2
        if op == "FloorDiv":
            q = x / y
            r, c = x.rational, y.rational
            if r is not None and c:
                return tm.num(Fraction(math.floor(r / c)))
            if q.integer:
                return q
            return tm.fn("floor", q, integer=True)
        if op == "Mod":
            r, c = x.rational, y.rational
            if r is not None and c:
                return tm.num(r - c * math.floor(r / c))
            return tm.mod(x, y)
        if op in _CMP:
            return self.cmp_term(op, x, y)
        if op == "max2":
            return tm_max(x, y)
        if op == "min2":
            return tm_min(x, y)
        return tm.fn(op, x, y)

    def unop(self, op, a, st, node):
        it = self.it
        if op == "Not":
            t = it.truth(a, st)
            d = it.deps(st, a)
            if t is not None:
                return const(not t, d)
            s = None
            if a.s is not None and a.t <= {"bool"} and not a.r:
                s = tm.lnot(a.s)
            return unk("bool", d, s)
        if self.arrish(st, a):
            if op == "USub":
                return self.elementwise(st, [a], node, lambda x: -x)
            if op == "Invert":
                return self.elementwise(st, [a], node, tm.lnot,
                                        dtype="bool")
            return self.elementwise(st, [a], node, lambda x: x)
        d = a.d
        if op == "USub":
            cs = set()
            ok = bool(a.c) and not (a.t or a.r)
            for k in a.c:
                try:
                    cs.add(ck(-k[1]))
                except Exception:
                    ok = False
            s = -a.s if a.s is not None else None
            if ok:
                return V(c=frozenset(cs), d=d, s=s)
            return V(t=frozenset([self.numtag("Sub", a, a)]), d=d, s=s)
        if op == "UAdd":
            return a
        if op == "Invert":
            return V(t=frozenset(["any"]), d=d,
                     s=tm.lnot(a.s) if a.s is not None else None)
        return unk("any", d)

    def seq_op(self, op, a, b, st, node):
        it = self.it
        if op == "Add":
            ia, ra, _ = self.iterate_tag(st, a, node, "l")
            ib, rb, _ = self.iterate_tag(st, b, node, "r")
            kind = "list"
            for r in a.r:
                if st.heap[r].kind == "tuple":
                    kind = "tuple"
            if ia is not None and ib is not None:
                return it.new(st, O(kind, items=tuple(ia) + tuple(ib)),
                              node, "seq")
            return it.new(st, O(kind, items=None, rest=join(ra, rb)), node,
                          "seq")
        lst, n = (a, b) if a.r else (b, a)
        items, rest, _ = self.iterate(st, lst, node)
        kind = st.heap[next(iter(lst.r))].kind
        if items is not None and len(n.c) == 1 and not n.t:
            k = next(iter(n.c))[1]
            if isinstance(k, int) and len(items) * k <= 64:
                return it.new(st, O(kind, items=tuple(items) * k), node,
                              "seq")
        # [x] * n with unknown n: a uniform sequence of length n
        o = O(kind, items=None, rest=rest, deps=n.d,
              extra=("rep", len(items) if items is not None else None, n.s))
        return it.new(st, o, node, "seq")

    # -------------------------------------------------------- elementwise
    def arr_parts(self, st, v):
        """(rank, content, shape, deps, dtype) of an operand"""
        it = self.it
        o = it.array_obj(st, v)
        if o is not None:
            return (o.rank, it.content(st, o), o.shape,
                    it.deps(st, v), it.arr_dtype(st, o))
        if v.r:
            arrs = [st.heap[r] for r in v.r if r in st.heap]
            ranks = set(o.rank for o in arrs if o.kind == "array")
            rk = ranks.pop() if len(ranks) == 1 else None
            o0 = self.as_array(st, v)
            if o0 is not None:
                return o0
            return (rk, None, None, it.deps(st, v), None)
        s = v.s
        if s is not None and self.numlike(v):
            dt = None if v.t - {"bool"} or any(
                k[0] != "bool" for k in v.c) else "bool"
            return (0, (lambda i, s=s: s), (), v.d, dt)
        if v.t & {"any"}:
            return (None if s is None else 0,
                    (lambda i, s=s: s) if s is not None else None, None,
                    v.d, None)
        return (0, None, (), v.d, None)

    def as_array(self, st, v):
        """list of scalars as rank-1 operand"""
        it = self.it
        if len(v.r) != 1:
            return None
        o = st.heap.get(next(iter(v.r)))
        if o is None or o.kind not in ("list", "tuple") or v.c or v.t:
            return None
        d = it.deps(st, v)
        if o.items is None:
            if isinstance(o.extra, tuple) and o.extra and \
                    o.extra[0] == "lam1":
                _, f, n = o.extra
                return (1, f, (n,), d, None)
            if isinstance(o.extra, tuple) and o.extra and \
                    o.extra[0] == "lam":
                _, f, sh = o.extra
                return (len(sh), f, sh, d, None)
            r = o.rest
            if it.terms and not o.weak and r is not None and not r.r and \
                    not r.f and r.t <= {"int", "float"} and \
                    all(k[0] in ("int", "float") for k in r.c):
                ints = "float" not in r.t and \
                    all(k[0] == "int" for k in r.c)
                a = tm.arr(it.name_of(o, "list"))
                n = tm.fn("length", a, integer=True)
                return (1, lambda i: tm.sel(a, i), (n,), d,
                        "int" if ints else None)
            return (None, None, None, d, None)
        parts = [self.arr_parts(st, x) for x in o.items]
        if all(p[0] == 0 for p in parts):
            cs = [p[1] for p in parts]
            if any(c is None for c in cs):
                return (1, None, (tm.num(len(cs)),), d, None)
            ss = [c(()) for c in cs]

            def f(i, ss=ss):
                return pick(i[0], ss)
            dt = "bool" if all(p[4] == "bool" for p in parts) and parts \
                else None
            return (1, f, (tm.num(len(ss)),), d, dt)
        if parts and all(p[0] == parts[0][0] and p[0] for p in parts):
            rk = parts[0][0]
            cs = [p[1] for p in parts]
            f = None
            if all(c is not None for c in cs):
                def f(i, cs=cs):
                    return pick(i[0], [c(i[1:]) for c in cs])
            sh = (tm.num(len(cs)),) + tuple(parts[0][2] or (None,) * rk)
            return (rk + 1, f, sh, d, None)
        return (None, None, None, d, None)

    def elementwise(self, st, vs, node, f, dtype=None, tag="ew"):
        it = self.it
        parts = [self.arr_parts(st, v) for v in vs]
        d = EMPTY
        for p in parts:
            d = d | p[3]
        ranks = [p[0] for p in parts]
        if any(r is None for r in ranks):
            return it.new_array(st, node, None, None, d, dtype=dtype,
                                tag=tag)
        rk = max(ranks)
        shape = self.bshape([p[2] for p in parts], rk)
        content = None
        if all(p[1] is not None for p in parts):
            content = self.bcast(parts, rk, f)
        if dtype is None:
            dts = set(p[4] for p in parts if p[0])
            if dts == {"int"}:
                for v, p in zip(vs, parts):
                    if p[0] == 0 and not (
                            v.t <= {"int", "bool"} and all(
                                k[0] in ("int", "bool") for k in v.c)):
                        dts = {None}
            elif dts == {"float"}:
                # a complex number makes the result complex
                for v, p in zip(vs, parts):
                    if p[0] == 0 and not (
                            v.t <= {"int", "bool", "float"} and all(
                                k[0] in ("int", "bool", "float")
                                for k in v.c) or
                            v.s is not None and v.s.real):
                        dts = {None}
            dtype = dts.pop() if len(dts) == 1 else None
            if dtype == "bool":
                dtype = None
        return it.new_array(st, node, content, rk, d, shape=shape,
                            dtype=dtype, tag=tag)

    def bcast(self, parts, rk, f):
        cs = []
        for r, c, sh, _, _ in parts:
            ones = tuple(bool(sh and sh[k] is not None
                              and sh[k].rational == 1) for k in range(r))
            cs.append((r, c, ones))
        memo = {}

        def content(i):
            key = tuple(i)
            v = memo.get(key)
            if v is None:
                xs = []
                for r, c, ones in cs:
                    j = i[rk - r:] if r else ()
                    if any(ones):
                        j = tuple(tm.num(0) if o else x
                                  for x, o in zip(j, ones))
                    xs.append(c(j))
                v = memo[key] = f(*xs)
            return v
        return content

    def bshape(self, shapes, rk):
        out = []
        for k in range(rk):
            best = None
            unknown = False
            for sh in shapes:
                if sh is None:
                    unknown = True
                    continue
                j = k - (rk - len(sh))
                if j < 0:
                    continue
                p = sh[j]
                if p is None:
                    unknown = True
                elif p.rational == 1:
                    best = best or p
                else:
                    if best is None or best.rational == 1:
                        best = p
            if unknown and (best is None or best.rational == 1):
                best = None
            out.append(best)
        return tuple(out)

    # ------------------------------------------------------------ indexing
    def getitem(self, st, base, idx, node):
        it = self.it
        idx = self.unslice(st, idx)
        outs = []
        idep = self.idx_deps(st, idx)
        for f in base.f:
            if isinstance(f, tuple) and f[0] == "ext":
                outs.append(self.ext_index(st, f[1], idx, node))
            else:
                outs.append(unk("any", idep | it.deps(st, base)))
        for r in it.each(base.r):
            o = st.heap.get(r)
            one = V(r=frozenset([r]), d=base.d)
            if o is None:
                outs.append(unk("any"))
            elif o.kind == "array":
                outs.append(self.array_get(st, one, o, idx, node))
            elif o.kind in ("list", "tuple"):
                outs.append(self.seq_get(st, one, o, idx, node))
            elif o.kind == "dict":
                outs.append(self.dict_get(st, one, o, idx, node))
            elif o.kind == "inst" and isinstance(o.extra, tuple) \
                    and o.extra and o.extra[0] == "fields":
                names = o.extra[1]
                outs.append(self.fields_get(st, o, names, idx, node))
            elif o.kind == "inst" and isinstance(o.cls, ip.ClassInfo) and \
                    o.cls.lookup("__getitem__")[1] is not None:
                m = o.cls.lookup("__getitem__")[1]
                iv = idx if isinstance(idx, V) else unk("any", idep)
                outs.append(it.call(m, [one, iv], {}, st, node))
            elif o.kind == "range":
                outs.append(unk("int", it.deps(st, one) | idep))
            else:
                outs.append(unk("any", it.deps(st, one) | idep))
        for k in base.c:
            if k[0] == "str":
                outs.append(strpat.index(it, V(c=frozenset([k]), d=base.d),
                                         idx, st))
            elif k[0] != "NoneType" and k != UNB:
                it.event("scalarindex", node)
        if base.t:
            if base.x is not None:
                outs.append(strpat.index(it, base, idx, st))
            else:
                s = None
                outs.append(unk("str" if base.t <= {"str", FRESHSTR}
                                else "any", base.d | idep, s))
        if not outs:
            it.kill(st)
            return BOT
        live = [v for v in outs if not v.bottom]
        if not live:
            it.kill(st)
            return BOT
        return joinall(live).add(idep & it.deps(st, base)
                                 if False else EMPTY)

    def idx_deps(self, st, idx):
        if isinstance(idx, V):
            return self.it.deps(st, idx)
        if isinstance(idx, tuple):
            d = EMPTY
            for x in idx[1:]:
                if x is not None:
                    d = d | self.it.deps(st, x)
            return d
        d = EMPTY
        for x in idx:
            d = d | self.idx_deps(st, x)
        return d

    def int_const(self, v):
        if isinstance(v, V) and len(v.c) == 1 and not (v.t or v.r or v.f):
            k = next(iter(v.c))
            if k[0] in ("int", "bool"):
                return int(k[1])
        return None

    def seq_get(self, st, one, o, idx, node):
        it = self.it
        d = o.deps | one.d | self.idx_deps(st, idx)
        if isinstance(idx, V):
            k = self.int_const(idx)
            if o.items is not None:
                if k is not None:
                    if -len(o.items) <= k < len(o.items):
                        return o.items[k].add(d)
                    return BOT
                # list indexed by [...]-list etc: unknown
                return joinall(o.items).add(d).nos() if o.items else BOT
            if isinstance(o.extra, tuple) and o.extra and \
                    o.extra[0] == "lam1" and idx.s is not None:
                return V(t=o.rest.t or frozenset(["num"]), d=d | o.rest.d,
                         s=o.extra[1]((idx.s,)))
            if isinstance(o.extra, tuple) and o.extra and \
                    o.extra[0] == "lines" and o.extra[1] is not None:
                r = strpat.line_get(it, st, o, idx, node)
                if r is not None:
                    return r
            return (o.rest if o.rest is not None else unk("any")).add(d)
        if isinstance(idx, tuple):
            lo, hi, sp = [None if x is None else self.int_const(x)
                          for x in idx[1:]]
            okc = all(x is None or self.int_const(x) is not None
                      or x.c == frozenset([ck(None)]) for x in idx[1:])
            if o.items is not None and okc:
                return it.new(st, O(o.kind, items=tuple(
                    o.items[slice(lo, hi, sp)]), deps=d), node, "sl")
            rest = o.rest
            if o.items is not None:
                rest = joinall(o.items) if o.items else BOT
            ex = None
            if isinstance(o.extra, tuple) and o.extra and \
                    o.extra[0] == "lines" and lo is not None and hi is None:
                ex = ("lines", o.extra[1], o.extra[2] + lo)
            return it.new(st, O(o.kind, items=None, rest=rest, deps=d,
                                extra=ex), node, "sl")
        return unk("any", d)

    def fields_get(self, st, o, names, idx, node):
        k = self.int_const(idx) if isinstance(idx, V) else None
        if k is not None and -len(names) <= k < len(names):
            return o.attrs[names[k]]
        return joinall([o.attrs[n] for n in names])

    def dict_get(self, st, one, o, idx, node):
        v = self.dict_get0(st, one, o, idx, node)
        if self.it.watched is not None and isinstance(idx, V):
            for k in idx.c:
                self.it.watched.append((node, o, k[1], v, st))
        return v

    def dict_get0(self, st, one, o, idx, node):
        it = self.it
        d = o.deps | one.d
        if not isinstance(idx, V):
            return unk("any", d | self.idx_deps(st, idx))
        idep = idx.d
        outs = []
        if idx.c and not (idx.t or idx.r or idx.f):
            for k in idx.c:
                if k in o.items:
                    v = o.items[k]
                    if UNB in v.c:
                        v = V(v.c - {UNB}, v.t, v.r, v.f, v.d, v._s, v.x)
                        if o.rest is not None:
                            v = join(v, o.rest)
                        it.event("maykeyerror", node, key=k[1])
                    if not v.bottom:
                        outs.append(v)
                elif o.rest is not None:
                    outs.append(o.rest)
                else:
                    it.event("keyerror", node, key=k[1])
            if not outs:
                return BOT
            extra = idep if len(idx.c) > 1 or True else EMPTY
            return joinall(outs).add(d | extra)
        if idx.t == {FRESHSTR} and not (idx.c or idx.r or idx.f):
            if o.rest is None:
                it.event("keyerror", node, key="<unrecognised>")
                return BOT
            return o.rest.add(d | idep)
        vs = [v for v in o.items.values()]
        if o.rest is not None:
            vs.append(o.rest)
        if not vs:
            return BOT
        v = joinall(vs)
        v = V(v.c - {UNB}, v.t, v.r, v.f, v.d, None)
        it.guard_hits.append((node, it.deps(st, idx)))
        return v.add(d | it.deps(st, idx))

    def dict_view(self, st, v):
        """(known items, summary) of something used as **mapping"""
        items, rest = {}, None
        n = 0
        for r in v.r:
            o = st.heap.get(r)
            if o is not None and o.kind == "dict":
                n += 1
                for k, x in o.items.items():
                    x = x.add(v.d | o.deps)
                    items[k] = join(items[k], x) if k in items else x
                if o.rest is not None:
                    rest = o.rest if rest is None else join(rest, o.rest)
            elif o is not None:
                rest = unk("any", self.it.deps(st, v))
        if n > 1:
            for k in items:
                pass
        if v.t or not v.r:
            rest = unk("any", v.d)
        return items, rest

    # --- arrays
    def unslice(self, st, idx):
        """slice objects in an index"""
        if isinstance(idx, list):
            return [self.unslice(st, x) for x in idx]
        if isinstance(idx, V) and len(idx.r) == 1 and not (
                idx.c or idx.t or idx.f):
            o = st.heap.get(next(iter(idx.r)))
            if o is not None and o.kind == "slice" and o.items:
                return ("slice",) + tuple(
                    x.add(idx.d | o.deps) for x in o.items)
            if o is not None and o.kind == "tuple" and o.items and any(
                    isinstance(self.unslice(st, x), tuple)
                    for x in o.items):
                return [self.unslice(st, x.add(idx.d | o.deps))
                        for x in o.items]
        return idx

    def untuple(self, st, idx):
        """a[t] with a tuple t is a[t[0], t[1], ..]"""
        if isinstance(idx, V) and len(idx.r) == 1 and not (
                idx.c or idx.t or idx.f):
            o = st.heap.get(next(iter(idx.r)))
            if o is not None and o.kind == "tuple" and o.items:
                return [x.add(idx.d | o.deps) for x in o.items]
        return idx

    def classify(self, st, i):
        """kind of one index component"""
        it = self.it
        if isinstance(i, tuple):
            return "slice"
        if i.c == frozenset([ck(None)]) and not (i.t or i.r):
            return "new"
        if i.c and all(k[0] == "ellipsis" for k in i.c):
            return "ell"
        o = it.array_obj(st, i)
        if o is not None:
            dt = it.arr_dtype(st, o)
            return "mask" if dt == "bool" else "vague" if dt is None and \
                self.maybe_mask(st, o) else "fancy"
        if i.r:
            kinds = set(st.heap[r].kind for r in i.r if r in st.heap)
            if kinds == {"array"}:
                dts = set(it.arr_dtype(st, st.heap[r]) for r in i.r)
                return "mask" if dts == {"bool"} else "fancy"
            if kinds <= {"list"}:
                p = self.as_array(st, i)
                return "mask" if p is not None and p[4] == "bool" \
                    else "fancy"
            return "amb"
        if i.t <= {"int", "bool", "num", "float"} and all(
                k[0] in ("int", "bool", "float") for k in i.c):
            return "int"
        if i.t == {"any"} and i.s is not None:
            return "int"
        return "amb"

    def maybe_mask(self, st, o):
        """is the content of an array nothing but truth values?"""
        c = self.it.content(st, o)
        if c is None or o.rank is None:
            return True
        try:
            p = c(tuple(tm.bvar() for _ in range(o.rank)))
        except tm.TooBig:
            return True
        return p.integer and all(b.op == "br" for m, _ in p.terms
                                 for b, _ in m)

    def array_get(self, st, one, o, idx, node):
        it = self.it
        idx = self.untuple(st, idx)
        comps = idx if isinstance(idx, list) else [idx]
        if len(comps) == 1 and isinstance(comps[0], V):
            # a tuple value used as an index
            v = comps[0]
            if len(v.r) == 1 and not v.c and not v.t:
                ob = st.heap.get(next(iter(v.r)))
                if ob is not None and ob.kind == "tuple" and \
                        ob.items is not None:
                    comps = list(ob.items)
        kinds = [self.classify(st, c) for c in comps]
        idep = self.idx_deps(st, idx)
        adep = it.deps(st, one)
        if "amb" in kinds:
            # may be a view, may be a copy or a scalar
            ob = o.rep(rank=None, view=None, shape=None, content=None,
                       extra=None, deps=o.deps | idep)
            return V(t=frozenset(["any"]),
                     r=frozenset([it.alloc(st, ob, node, "amb")]),
                     d=idep | adep)
        if o.rank is None:
            if all(k == "int" for k in kinds):
                ob = o.rep(rank=None, view=None, shape=None, content=None,
                           extra=None, deps=o.deps | idep)
                return V(t=frozenset(["any"]), r=frozenset(
                    [it.alloc(st, ob, node, "amb")]), d=idep | adep)
            if set(kinds) & {"fancy", "mask", "vague"}:
                return it.new_array(st, node, None, None, adep | idep,
                                    dtype=it.arr_dtype(st, o), tag="fx")
            ob = o.rep(rank=None, view=None, shape=None, content=None,
                       extra=None, deps=o.deps | idep)
            return V(r=frozenset([it.alloc(st, ob, node, "v")]), d=one.d)
        comps, kinds = self.expand(comps, kinds, o.rank)
        if comps is None:
            it.event("badindex", node)
            return BOT
        if all(k == "int" for k in kinds) and len(kinds) == o.rank:
            c = it.content(st, o)
            s = None
            if c is not None and all(x.s is not None for x in comps):
                ps = self.int_index(comps, o.shape)
                if ps is not None:
                    try:
                        s = c(ps)
                    except tm.TooBig:
                        s = None
            it.event("aread", node, idx=tuple(x.s for x in comps),
                     shape=o.shape) if it.want_index else None
            dt = it.arr_dtype(st, o)
            return V(t=frozenset([dt or "num"]), d=adep | idep, s=s)
        if set(kinds) & {"fancy", "mask", "vague"}:
            return self.fancy_get(st, one, o, comps, kinds, node, adep,
                                  idep)
        # basic view
        ents, shape, k, ax = [], [], 0, 0
        ok = True
        for c, kd in zip(comps, kinds):
            if kd == "new":
                shape.append(tm.num(1))
                k += 1
                continue
            n = o.shape[ax] if o.shape else None
            if kd == "int":
                p = self.int_index([c], (n,))
                if p is None:
                    ok = False
                    ents.append(None)
                else:
                    ents.append(("i", p[0]))
            else:
                r = self.slice_parts(c, n)
                if r is None:
                    ok = False
                    ents.append(None)
                    shape.append(None)
                else:
                    lo, step, ln = r
                    ents.append(("s", k, lo, step))
                    shape.append(ln)
                k += 1
            ax += 1
        view = None
        content = extra = None
        if ok:
            v2 = View(tuple(ents))
            if o.content is not None:
                c0 = it.content(st, o)
                if c0 is not None:
                    content, extra = (lambda i, c0=c0, v2=v2: c0(v2(i))), \
                        o.extra
            elif o.view is ip._ident:
                view = v2
            elif isinstance(o.view, View):
                view = compose(o.view, v2)
        ob = O("array", bases=o.bases, rank=k, view=view, shape=tuple(shape),
               deps=o.deps | idep, content=content, extra=extra,
               origin=o.origin)
        return V(r=frozenset([it.alloc(st, ob, node, "v")]), d=one.d)

    def expand(self, comps, kinds, rank):
        n = sum(1 for k in kinds if k not in ("new", "ell"))
        if n > rank:
            return None, None
        if "ell" in kinds:
            p = kinds.index("ell")
            fill = rank - n
            comps = comps[:p] + [("slice", None, None, None)] * fill + \
                comps[p + 1:]
            kinds = kinds[:p] + ["slice"] * fill + kinds[p + 1:]
        else:
            comps = list(comps) + [("slice", None, None, None)] * (rank - n)
            kinds = list(kinds) + ["slice"] * (rank - n)
        return comps, kinds

    def int_index(self, comps, shape):
        out = []
        for i, c in enumerate(comps):
            p = c.s
            if p is None:
                return None
            r = p.rational
            if r is not None and r < 0:
                n = shape[i] if shape else None
                if n is None:
                    return None
                p = n + p
            elif r is None and self.it.terms:
                lo, hi = tm.bounds(p)
                n = shape[i] if shape else None
                if hi is not None and hi < 0:
                    if n is None:
                        return None
                    p = n + p
                elif lo is not None and lo < 0 and n is not None:
                    # counted from the end where negative
                    p = p + n * (tm.num(1) - tm.ge0(p))
            out.append(p)
        return tuple(out)

    def slice_parts(self, c, n):
        """(lo P|None, step, length P|None) or None if unknown"""
        def val(x):
            if x is None or x.c == frozenset([ck(None)]):
                return None, True
            if x.s is None:
                return None, False
            return x.s, True
        lo, ok1 = val(c[1])
        hi, ok2 = val(c[2])
        sp, ok3 = val(c[3])
        if not (ok1 and ok2 and ok3):
            return None
        step = 1
        if sp is not None:
            r = sp.rational
            if r is None or r != int(r) or not (
                    r in (1, -1) or r > 1 and self.it.terms):
                return None
            step = int(r)

        def fix(p):
            r = p.rational
            if r is not None and r < 0:
                return None if n is None else n + p
            if r is None and tm._sign(p) < 0 and n is not None:
                k = self.it.interval(p)
                if k[1] is not None and k[1] < 0:
                    return n + p
            if r is None:
                lo_, hi_ = self.it.interval(p)
                if hi_ is not None and hi_ < 0:
                    return None if n is None else n + p
                if n is not None and self.it.terms and not (
                        lo_ is not None and lo_ >= 0):
                    # counted from the end if negative; sizes are taken to
                    # be large compared to constants
                    a, b = tm.bounds(p - tm.num(p.constant))
                    if a is not None and a >= 0:
                        return p
                    if b is not None and b <= 0:
                        return n + p
                    return p + n * (tm.num(1) - tm.ge0(p))
            return p
        if step > 0:
            if lo is not None:
                lo = fix(lo)
                if lo is None:
                    return None
            if hi is not None:
                hi = fix(hi)
            elif c[2] is None or hi is None:
                hi = n
            ln = None
            if hi is not None:
                ln = hi - (lo if lo is not None else tm.num(0))
            if lo is not None and lo.rational == 0:
                lo = None
            if step != 1 and ln is not None:
                r = ln.rational
                ln = tm.num(max(math.ceil(r / step), 0)) if r is not None \
                    else tm.fn("len_ceil", ln / step, integer=True)
            return lo, step, ln
        # reversed
        if lo is None:
            start = None if n is None else n - 1
        else:
            start = fix(lo)
        if start is None:
            return None
        if hi is None:
            ln = start + 1
        else:
            h = fix(hi)
            ln = None if h is None else start - h
        return start, -1, ln

    def fancy_get(self, st, one, o, comps, kinds, node, adep, idep):
        it = self.it
        dt = it.arr_dtype(st, o)
        nf = [i for i, k in enumerate(kinds)
              if k in ("fancy", "mask", "vague")]
        rank = None
        content = None
        shape = None
        if len(nf) == 1:
            p = nf[0]
            iv = comps[p]
            part = self.arr_parts(st, iv)
            irank = part[0]
            simple = kinds[p] != "vague" and all(
                k in ("slice", "int") for i, k in enumerate(kinds) if i != p)
            if irank == 1 or (kinds[p] == "mask" and irank is not None):
                rank = len([k for k in kinds if k in ("slice", "new")]) + 1
            full = kinds[p] == "mask" and irank == o.rank and irank > 1
            if full:
                rank = 1
            elif kinds[p] == "mask" and irank != 1:
                rank = None
            c0 = it.content(st, o)
            if simple and irank == 1 and part[1] is not None and \
                    c0 is not None:
                maps, shp, k = [], [], 0
                ok = True
                for i, (c, kd) in enumerate(zip(comps, kinds)):
                    n = o.shape[i] if o.shape else None
                    if i == p:
                        maps.append(("f", k))
                        shp.append(None)
                        k += 1
                    elif kd == "int":
                        q = self.int_index([c], (n,))
                        if q is None:
                            ok = False
                            break
                        maps.append(("i", q[0]))
                    else:
                        r = self.slice_parts(c, n)
                        if r is None:
                            ok = False
                            break
                        maps.append(("s", k, r[0], r[1]))
                        shp.append(r[2])
                        k += 1
                try:
                    gather = ok and self.gather(kinds[p], part)
                except tm.TooBig:
                    ok = False
                if ok:

                    def content(i, maps=tuple(maps), c0=c0, gather=gather):
                        out = []
                        for m in maps:
                            if m[0] == "f":
                                out.append(gather(i[m[1]]))
                            elif m[0] == "i":
                                out.append(m[1])
                            else:
                                x = i[m[1]]
                                x = x * m[3] if m[3] != 1 else x
                                out.append(x + m[2] if m[2] is not None
                                           else x)
                        return c0(tuple(out))
                    if kinds[p] == "mask":
                        shp = [s if j != maps[p][1] else
                               count(part)
                               for j, s in enumerate(shp)]
                    else:
                        shp = [s if j != maps[p][1] else
                               (part[2][0] if part[2] else None)
                               for j, s in enumerate(shp)]
                    shape = tuple(shp)
            elif full and \
                    part[1] is not None and c0 is not None and it.terms:
                # the elements where a mask of the same rank holds
                try:
                    m = _reify(irank, part[1])
                except tm.TooBig:
                    m = None
                if m is not None:
                    shape = (None,)

                    def content(i, m=m, c0=c0):
                        b = tm.as_base(i[0])
                        if b is not None and b.op == "fn" and \
                                b.args[0] == "rankof" and b.args[1] is m:
                            return c0(tuple(b.args[2:]))
                        raise tm.TooBig()
        elif kinds and all(k == "slice" for k in kinds):
            rank = o.rank
        return it.new_array(st, node, content, rank, adep | idep,
                            shape=shape, dtype=dt, tag="fx")

    def gather(self, kind, part):
        if kind == "mask":
            m = _reify(1, part[1])
            ln = length(part)

            def g(i):
                b = tm.as_base(i)
                if b is not None and b.op == "fn" and \
                        b.args[0] == "rankof" and b.args[1] is m:
                    return b.args[2]
                return tm.fn("nthtrue", m, i, *ln, integer=True)
            return g
        c = part[1]
        return lambda i: c((i,))

    def setitem(self, st, base, idx, v, node):
        it = self.it
        idx = self.unslice(st, idx)
        v = v.add(it.pc)
        idep = self.idx_deps(st, idx)
        strong = len(base.r) == 1 and not base.t
        if base.f:
            for f in base.f:
                if isinstance(f, tuple) and f[0] in ("ext", "mod"):
                    it.event("mutate", node, origin="%s:%s" % f[:2],
                             what="[...]")
        if base.t and not base.r:
            it.event("extset", node)
        for r in base.r:
            o = st.heap.get(r)
            if o is None:
                continue
            if o.kind == "array":
                self.store_array(st, V(r=frozenset([r]), d=base.d), idx, v,
                                 node, strong=strong)
                continue
            if o.kind == "list":
                it.mutate(st, r, node, "[...]")
                k = self.int_const(idx) if isinstance(idx, V) else None
                if o.items is not None and k is not None and \
                        -len(o.items) <= k < len(o.items):
                    items = list(o.items)
                    items[k] = v if strong and not o.weak \
                        else join(items[k], v)
                    st.heap[r] = o.rep(items=tuple(items))
                else:
                    rest = v.add(idep)
                    for x in o.items or ():
                        rest = join(rest, x)
                    if o.rest is not None:
                        rest = join(rest, o.rest)
                    ex = None
                    if isinstance(o.extra, tuple) and o.extra and \
                            o.extra[0] == "lam1" and v.s is not None and \
                            isinstance(idx, V) and idx.s is not None \
                            and strong:
                        f0, p, sv = o.extra[1], idx.s, v.s
                        ex = ("lam1", lambda i: tm.phi(
                            tm.eq0(i[0] - p), sv, f0(i)), o.extra[2])
                    st.heap[r] = o.rep(items=None, rest=rest, extra=ex)
            elif o.kind == "dict":
                it.mutate(st, r, node, "[...]")
                items = dict(o.items)
                rest = o.rest
                if isinstance(idx, V) and len(idx.c) == 1 and not (
                        idx.t or idx.r or idx.f):
                    k = next(iter(idx.c))
                    if strong and not o.weak:
                        items[k] = v
                    else:
                        items[k] = join(items.get(k, UNBOUND), v)
                else:
                    for k in items:
                        items[k] = join(items[k], v.add(idep))
                    w = v.add(idep)
                    rest = w if rest is None else join(rest, w)
                st.heap[r] = o.rep(items=items, rest=rest)
            elif o.kind == "inst":
                it.mutate(st, r, node, "[...]")

    def delitem(self, st, base, idx, node):
        for r in base.r:
            o = st.heap.get(r)
            if o is None:
                continue
            self.it.mutate(st, r, node, "del")
            if o.kind == "dict" and isinstance(idx, V) and len(idx.c) == 1:
                items = dict(o.items)
                items.pop(next(iter(idx.c)), None)
                st.heap[r] = o.rep(items=items)
            elif o.kind == "list":
                st.heap[r] = o.rep(items=None, rest=joinall(
                    o.items) if o.items else (o.rest or BOT))

    def set_flag(self, st, o, name, v, node):
        it = self.it
        for rid in o.bases:
            reg = st.heap.get(rid)
            if reg is None:
                continue
            if reg.origin != "fresh" and not it.flags_ok:
                it.event("mutate", node, origin=reg.origin,
                         what="flags." + name)
            if name == "writeable":
                vals = frozenset(bool(k[1]) for k in v.c) if v.c and \
                    not v.t else frozenset([True, False])
                strong = len(o.bases) == 1 and not reg.weak
                st.heap[rid] = reg.rep(wr=vals if strong else reg.wr | vals)

    def store_array(self, st, v, idx, val, node, strong=True):
        """v[idx] = val   (idx None: the whole of v)"""
        it = self.it
        idx = self.untuple(st, idx)
        oid = next(iter(v.r))
        o = st.heap[oid]
        vdep = it.deps(st, val)
        idep = self.idx_deps(st, idx) if idx is not None else EMPTY
        comps = None
        full = idx is None or _is_full(idx)
        for rid in o.bases:
            reg = st.heap.get(rid)
            if reg is None:
                continue
            if reg.origin != "fresh":
                it.event("mutate", node, origin=reg.origin, what="array")
            if reg.wr == frozenset([False]):
                it.event("rowrite", node, origin=reg.origin)
            deps = reg.deps | vdep | idep | it.pc
            single = len(o.bases) == 1 and strong
            isid = o.view is ip._ident or (
                isinstance(o.view, View) and o.rank is not None
                and o.view == ident_view(o.rank) and reg.rank == o.rank)
            if single and full and isid and not reg.weak and not it.in_fix:
                deps = vdep | it.pc | o.deps
            content = None
            if single and it.terms:
                try:
                    content = self.stored(st, o, reg, idx, val, rid, node)
                except tm.TooBig:
                    content = None
            st.heap[rid] = reg.rep(deps=deps, content=content)

    def stored(self, st, o, reg, idx, val, rid, node):
        """new region content after o[idx] = val, or None"""
        it = self.it
        old = reg.content
        if o.content is not None or reg.rank is None:
            return None
        view = o.view
        if view is ip._ident:
            view = ident_view(reg.rank)
        if view is None or not isinstance(view, View):
            return None
        if o.rank is None:
            return None
        part = self.arr_parts(st, val)
        if part[1] is None or part[0] is None:
            return None
        comps = idx if isinstance(idx, list) else (
            [("slice", None, None, None)] if idx is None else [idx])
        kinds = [self.classify(st, c) for c in comps]
        if "amb" in kinds or "new" in kinds:
            return None
        comps, kinds = self.expand(comps, kinds, o.rank)
        if comps is None:
            return None
        # constraints on the array index a (one per axis of o)
        tests, outmap, k = [], [], 0
        for ax, (c, kd) in enumerate(zip(comps, kinds)):
            n = o.shape[ax] if o.shape else None
            if kd == "int":
                p = self.int_index([c], (n,))
                if p is None:
                    return None
                tests.append(("eq", ax, p[0]))
            elif kd == "slice":
                r = self.slice_parts(c, n)
                if r is None:
                    return None
                lo, step, ln = r
                whole = lo is None and step == 1 and (
                    c[2] is None or c[2].c == frozenset([ck(None)]))
                tests.append(("full", ax) if whole else
                             ("rng", ax, lo, step, ln))
                outmap.append((ax, lo, step))
            elif kd == "mask":
                mp = self.arr_parts(st, c)
                if mp[0] == o.rank and len(comps) >= 1 and o.rank > 1 and \
                        mp[1] is not None:
                    # boolean mask of the same rank
                    if part[0] not in (0, 1):
                        return None
                    if part[0] == 1 and not it.terms:
                        return None
                    return self.masked(view, mp[1], part, old, o.rank)
                if mp[0] != 1 or mp[1] is None:
                    return None
                m = _reify(1, mp[1])
                tests.append(("mask", ax, mp[1], m))
                outmap.append((ax, "mask", m))
            else:
                return None
        ents = view.entries
        prank, pc = part[0], part[1]
        pshape = part[2]
        if prank > len(outmap):
            # leading axes of length one are allowed
            return None
        if old is None and any(t[0] != "full" for t in tests):
            return None
        if old is None and any(e[0] == "i" for e in ents):
            return None

        def content(j):
            cond = tm.TRUE
            a = {}
            for jn, (e, x) in enumerate(zip(ents, j)):
                if e[0] == "i":
                    cond = cond * it.decide(tm.eq0(x - e[1]))
                else:
                    _, kk, lo, step = e
                    y = x - lo if lo is not None else x
                    if step > 1:
                        cond = cond * it.decide(tm.divides(step, y))
                        a[kk] = y / step
                    else:
                        a[kk] = y * step if step != 1 else y
                    # the array is a part of the region
                    ln = o.shape[kk] if o.shape else None
                    rn = reg.shape[jn] if reg.shape else None
                    if lo is None and step == 1 and (
                            ln is rn or rn is None):
                        continue
                    if ln is None:
                        raise tm.TooBig()
                    if lo is not None:
                        cond = cond * it.decide(tm.ge0(a[kk]))
                    cond = cond * it.decide(tm.gt0(ln - a[kk]))
            for t in tests:
                if t[0] == "eq":
                    cond = cond * it.decide(tm.eq0(a[t[1]] - t[2]))
                elif t[0] == "rng":
                    _, ax, lo, step, ln = t
                    x = a[ax]
                    if step == 1:
                        if lo is not None:
                            cond = cond * it.decide(tm.ge0(x - lo))
                        end = None if ln is None else (
                            ln if lo is None else lo + ln)
                        if end is None:
                            raise tm.TooBig()
                        cond = cond * it.decide(tm.gt0(end - x))
                    elif step > 1 and ln is not None:
                        y = x if lo is None else x - lo
                        cond = cond * it.decide(tm.divides(step, y)) * \
                            it.decide(tm.ge0(y)) * \
                            it.decide(tm.gt0(ln * step - y))
                    else:
                        raise tm.TooBig()
                elif t[0] == "mask":
                    cond = cond * t[2]((a[t[1]],))
            if not cond.terms:
                return old(j)
            oi = []
            for om in outmap:
                x = a[om[0]]
                if om[1] == "mask":
                    oi.append(tm.fn("rankof", om[2], x, integer=True))
                else:
                    x = x - om[1] if om[1] is not None else x
                    oi.append(x / om[2] if om[2] > 1 else
                              x * om[2] if om[2] != 1 else x)
            oi = oi[len(oi) - prank:] if prank else []
            if pshape:
                oi = [tm.num(0) if (s is not None and s.rational == 1)
                      else x for s, x in zip(pshape, oi)]
            new = pc(tuple(oi))
            if cond is tm.TRUE:
                return new
            return tm.phi(cond, new, old(j))
        return _memo(content)

    def masked(self, view, mask, val, old, rank):
        ents = view.entries
        if any(e[0] == "i" or e[2] is not None or e[3] != 1 for e in ents):
            return None
        if old is None:
            return None
        m = _reify(rank, mask) if val[0] else None

        def content(j):
            a = [None] * rank
            for e, x in zip(ents, j):
                a[e[1]] = x
            at = ()
            if m is not None:
                at = (tm.fn("rankof", m, *a, integer=True),)
            return tm.phi(mask(tuple(a)), val[1](at), old(j))
        return _memo(content)

    # ------------------------------------------------------------ iterate
    def iterate(self, st, v, node):
        """(list of element Vs | None, summary V, deps deciding the trip
        count)"""
        it = self.it
        if len(v.r) == 1 and not (v.c or v.t or v.f):
            oid = next(iter(v.r))
            o = st.heap.get(oid)
            d = v.d | (o.deps if o is not None else EMPTY)
            if o is None:
                return None, unk("any", d), d
            if o.kind in ("list", "tuple", "set"):
                if o.items is not None:
                    return [x.add(d) for x in o.items], \
                        (joinall(o.items) if o.items else BOT).add(d), d
                rest = o.rest if o.rest is not None else unk("any")
                return None, rest.add(d), d | (
                    rest.d if o.kind == "set" else EMPTY)
            if o.kind == "dict":
                must = all(UNB not in x.c for x in o.items.values())
                ks = [V(c=frozenset([k]), d=d) for k in o.items]
                if o.rest is None and must:
                    return ks, joinall(ks) if ks else BOT, d
                return None, join(joinall(ks) if ks else BOT,
                                  unk("any", d)), d
            if o.kind == "inst" and isinstance(o.extra, tuple) and \
                    o.extra and o.extra[0] == "fields":
                xs = [o.attrs[n] for n in o.extra[1]]
                return xs, joinall(xs), d
            if o.kind == "range":
                return self.range_elems(st, o, d)
            if o.kind == "iter":
                return self.iter_elems(st, o, d, node)
            if o.kind == "array":
                return self.array_elems(st, v, o, d, node)
            if o.kind == "file":
                return None, strpat.file_line(self.it, o, d), d
            dd = it.deps(st, v)
            return None, unk("any", dd), dd
        if v.c and not (v.t or v.r or v.f) and len(v.c) == 1:
            k = next(iter(v.c))
            if k[0] == "str":
                if len(k[1]) <= 24:
                    xs = [const(ch, v.d) for ch in k[1]]
                    return xs, joinall(xs) if xs else BOT, v.d
                return None, unk("str", v.d), v.d
            it.event("baditer", node)
            return [], BOT, v.d
        if len(v.r) > 1 and not v.t and not v.c:
            outs = [self.iterate_tag(st, V(r=frozenset([r]), d=v.d), node, j)
                    for j, r in enumerate(it.each(v.r))]
            lens = set(len(x[0]) if x[0] is not None else None for x in outs)
            d = EMPTY
            for x in outs:
                d = d | x[2]
            if len(lens) == 1 and None not in lens:
                n = lens.pop()
                return [joinall([x[0][k] for x in outs])
                        for k in range(n)], joinall(
                            [x[1] for x in outs]), d
            return None, joinall([x[1] for x in outs]), d
        d = it.deps(st, v)
        return None, unk("any", d), d

    def iterate_tag(self, st, v, node, tag):
        """iterate, for one of several iterables at the same place"""
        it = self.it
        ctx = it.ctx
        it.ctx = ctx + (("of", tag),)
        try:
            return self.iterate(st, v, node)
        finally:
            it.ctx = ctx

    def range_elems(self, st, o, d):
        lo, hi, step = o.extra
        ks = [self.int_const(x) for x in (lo, hi, step)]
        if None not in ks and ks[2] != 0:
            r = range(*ks)
            if len(r) <= ip.MAXUNROLL:
                return [const(i, d) for i in r], unk("int", d), d
        dd = d | lo.d | hi.d | step.d
        return None, unk("int", dd), dd

    def array_elems(self, st, v, o, d, node):
        it = self.it
        dd = it.deps(st, v)
        n = None
        if o.rank == 1:
            # unknown length: element summary
            if o.shape and o.shape[0] is not None and \
                    o.shape[0].rational is not None and \
                    o.shape[0].rational <= ip.MAXUNROLL:
                n = int(o.shape[0].rational)
                xs = [self.array_get(st, v, o, const(i), node)
                      for i in range(n)]
                return xs, unk(it.arr_dtype(st, o) or "num", dd), dd
            return None, unk(it.arr_dtype(st, o) or "num", dd), o.deps | d
        if o.rank is not None and o.rank > 1:
            n = None
            if o.shape and o.shape[0] is not None:
                r = o.shape[0].rational
                n = int(r) if r is not None else None
            if n is not None and n <= ip.MAXUNROLL:
                xs = []
                for i in range(n):
                    xs.append(self.array_get_tag(st, v, o, const(i), node,
                                                 i))
                return xs, joinall(xs), dd
            row = self.array_get(st, v, o, unk("int", d), node)
            return None, row, o.deps | d
        ob = o.rep(rank=None, view=None, shape=None, content=None,
                   extra=None)
        return None, V(t=frozenset(["any"]),
                       r=frozenset([it.alloc(st, ob, node, "el")]),
                       d=dd), dd

    def array_get_tag(self, st, v, o, idx, node, tag):
        it = self.it
        ctx = it.ctx
        it.ctx = ctx + (("row", tag),)
        r = self.array_get(st, v, o, idx, node)
        it.ctx = ctx
        return r

    def iter_elems(self, st, o, d, node):
        it = self.it
        kind = o.extra[0]
        if kind == "enumerate":
            el, summ, dd = self.iterate(st, o.items[0], node)
            start = self.int_const(o.items[1])
            if el is not None and start is not None:
                out = []
                for i, x in enumerate(el):
                    out.append(it.new(st, O("tuple", items=(
                        const(i + start, d), x)), node, "en%d" % i))
                return out, joinall(out) if out else BOT, d | dd
            t = it.new(st, O("tuple", items=(unk("int", d | dd), summ)),
                       node, "en")
            return None, t, d | dd
        if kind == "zip":
            parts = [self.iterate_tag(st, x, node, j)
                     for j, x in enumerate(o.items)]
            dd = d
            for p in parts:
                dd = dd | p[2]
            if parts and all(p[0] is not None for p in parts):
                n = min(len(p[0]) for p in parts)
                out = []
                for i in range(n):
                    out.append(it.new(st, O("tuple", items=tuple(
                        p[0][i] for p in parts)), node, "zp%d" % i))
                return out, joinall(out) if out else BOT, dd
            t = it.new(st, O("tuple", items=tuple(p[1] for p in parts)),
                       node, "zp")
            return None, t, dd
        if kind == "product":
            parts = [self.iterate_tag(st, x, node, j)
                     for j, x in enumerate(o.items)]
            dd = d
            for p in parts:
                dd = dd | p[2]
            if all(p[0] is not None for p in parts):
                n = 1
                for p in parts:
                    n *= len(p[0])
                if n <= ip.MAXUNROLL:
                    out = [it.new(st, O("tuple", items=x), node, "pr%d" % i)
                           for i, x in enumerate(itertools.product(
                               *[p[0] for p in parts]))]
                    return out, joinall(out) if out else BOT, dd
            t = it.new(st, O("tuple", items=tuple(p[1] for p in parts)),
                       node, "pr")
            return None, t, dd
        if kind == "items":
            dv = o.items[0]
            outs, summ, must = [], BOT, True
            for r in it.each(dv.r):
                ob = st.heap.get(r)
                if ob is None or ob.kind != "dict":
                    must = False
                    continue
                for n, (k, x) in enumerate(ob.items.items()):
                    if UNB in x.c:
                        must = False
                    outs.append(it.new(st, O("tuple", items=(
                        V(c=frozenset([k]), d=d), x)), node, "it%d" % n))
                if ob.rest is not None:
                    must = False
                    outs.append(it.new(st, O("tuple", items=(
                        unk("any", d), ob.rest)), node, "itr"))
            if not outs and not must:
                return None, unk("any", d), d
            if must and len(dv.r) == 1:
                return outs, joinall(outs) if outs else BOT, d
            return None, joinall(outs), d
        if kind == "values":
            dv = o.items[0]
            items, rest = self.dict_view(st, dv)
            vals = list(items.values())
            if rest is None and all(UNB not in x.c for x in vals):
                return [x.add(d) for x in vals], \
                    (joinall(vals) if vals else BOT).add(d), d
            if rest is not None:
                vals.append(rest)
            v = joinall(vals) if vals else BOT
            return None, V(v.c - {UNB}, v.t, v.r, v.f, v.d | d), d
        if kind == "reversed":
            el, summ, dd = self.iterate(st, o.items[0], node)
            if el is not None:
                el = list(reversed(el))
            return el, summ, d | dd
        if kind == "map":
            el, summ, dd = self.iterate(st, o.items[1], node)
            if el is not None:
                out = []
                ctx = it.ctx
                for j, x in enumerate(el):
                    it.ctx = ctx + (("map", j),)
                    out.append(it.call(o.items[0], [x], {}, st, node))
                it.ctx = ctx
                return out, joinall(out) if out else BOT, d | dd
            it.in_fix += 1
            r = it.call(o.items[0], [summ], {}, st, node)
            it.in_fix -= 1
            return None, r, d | dd
        if kind == "filter":
            el, summ, dd = self.iterate(st, o.items[1], node)
            return None, summ.add(it.deps(st, summ)), d | dd
        return None, unk("any", it.deps(st, V(r=frozenset()))), d

    def nonempty(self, st, v):
        """the iterable certainly yields at least one element"""
        it = self.it
        if len(v.r) == 1 and not (v.c or v.t or v.f):
            o = st.heap.get(next(iter(v.r)))
            if o is None:
                return False
            if o.kind in ("list", "tuple") and o.items:
                return True
            if o.kind == "range":
                lo, hi, step = o.extra
                k = self.int_const(step)
                if lo.s is not None and hi.s is not None and k:
                    diff = (hi.s - lo.s) * (1 if k > 0 else -1) - 1
                    return it.decide(tm.ge0(diff)).rational == 1
            if o.kind == "iter" and o.extra[0] in ("enumerate", "reversed"):
                return self.nonempty(st, o.items[0])
            if o.kind == "array":
                return it.assume_nonempty
        return False

    def unpack(self, st, v, n, node, star=None):
        it = self.it
        if len(v.r) >= 1 and not v.t:
            per = []
            for r in it.each(v.r):
                o = st.heap.get(r)
                one = V(r=frozenset([r]), d=v.d)
                if o is not None and o.kind == "array" and o.rank is not None\
                        and star is None:
                    if o.rank >= 1:
                        xs = []
                        for i in range(n):
                            xs.append(self.array_get_tag(
                                st, one, o, const(i), node, ("u", i)))
                        per.append(xs)
                    continue
                if o is not None and o.kind in ("axes", "fig"):
                    it.event("badunpack", node)
                    continue
                el, summ, d = self.iterate(st, one, node)
                if el is not None and star is None and len(el) == n:
                    per.append(el)
                elif el is not None and star is not None and \
                        len(el) >= n - 1:
                    after = n - 1 - star
                    mid = el[star:len(el) - after]
                    lst = it.new(st, O("list", items=tuple(mid)), node,
                                 "star")
                    per.append(el[:star] + [lst] + el[len(el) - after:])
                elif el is not None:
                    it.event("badunpack", node)
                else:
                    per.append([summ.nos()] * n)
            if not per:
                it.kill(st)
                return [BOT] * n
            out = []
            for i in range(n):
                out.append(joinall([p[i] for p in per]))
            return out
        d = it.deps(st, v)
        return [unk("any", d) for _ in range(n)]

    # -------------------------------------------------------- calls
    def cannot_raise(self, b, st):
        """structurally certain: plain assignments of names and constants,
        and list(x) / tuple(x) of something that certainly iterates"""
        it = self.it
        if isinstance(b, ast.Pass):
            return True
        if not (isinstance(b, ast.Assign)
                and all(isinstance(t, ast.Name) for t in b.targets)):
            return False
        v = b.value
        if isinstance(v, ast.Constant):
            return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id in ("list", "tuple") and len(v.args) == 1 and \
                not v.keywords and isinstance(v.args[0], ast.Name):
            if st.loc.get((it.cur, v.func.id)) is not None:
                return False
            x = st.loc.get((it.cur, v.args[0].id))
            if x is None or not x.r or x.c or x.t or x.f:
                return False
            for r in x.r:
                o = st.heap.get(r)
                if o is None or not (
                        o.kind in ("list", "tuple") or
                        o.kind == "array" and o.rank is not None
                        and o.rank >= 1):
                    return False
            return True
        return False

    def enter(self, st, v, node):
        outs = []
        for r in self.it.each(v.r):
            o = st.heap.get(r)
            if o is not None and o.kind == "inst" and isinstance(
                    o.cls, ip.ClassInfo):
                m = o.cls.lookup("__enter__")[1]
                if m is not None:
                    outs.append(self.it.call(m, [V(r=frozenset([r]))], {},
                                             st, node))
                    continue
            outs.append(V(r=frozenset([r]), d=v.d))
        if v.t or not v.r:
            outs.append(unk("any", v.d))
        return joinall(outs)

    def exit(self, st, v, node):
        for r in v.r:
            o = st.heap.get(r)
            if o is not None and o.kind == "file":
                at = dict(o.attrs or {})
                at["closed"] = TRUEV
                st.heap[r] = o.rep(attrs=at)
            elif o is not None and o.kind == "inst" and isinstance(
                    o.cls, ip.ClassInfo):
                m = o.cls.lookup("__exit__")[1]
                if m is not None:
                    self.it.call(m, [V(r=frozenset([r])), NONE, NONE, NONE],
                                 {}, st, node)
            elif o is not None and o.kind == "ext" and \
                    o.cls == "np.errstate":
                pass

    def super_(self, st, e):
        it = self.it
        fn = None
        for f in reversed(it.stack):
            if f.cls is not None:
                fn = f
                break
        args = [it.ev(a, st) for a in e.args]
        if fn is None:
            return unk("any")
        me = st.loc.get((it.cur, fn.node.args.args[0].arg)) \
            if not args else args[1]
        bases = [b for b in fn.cls.bases if isinstance(b, ip.ClassInfo)]
        o = O("super", cls=bases[0] if bases else None, items=(me,))
        return it.new(st, o, e, "super") if not bases else \
            self.super_proxy(st, bases[0], me, e)

    def super_proxy(self, st, base, me, e):
        """an object whose attributes are the base-class methods bound to
        self"""
        it = self.it
        attrs = {}
        for c in reversed(base.mro()):
            for n, v in c.members.items():
                if isinstance(v, V) and v.f:
                    attrs[n] = V(f=frozenset(("bm", f, me) for f in v.f))
        return it.new(st, O("inst", cls=None, attrs=attrs), e, "super")

    def call_opaque(self, st, fv, args, kwargs, node):
        """call of an unknown callable (e.g. one supplied by the user)"""
        it = self.it
        d = fv.d
        for a in list(args) + list(kwargs.values()):
            d = d | it.deps(st, a)
        it.event("opaquecall", node)
        return unk("any", d)

    def make_namedtuple(self, st, f, args, kwargs, node, cls=None):
        it = self.it
        names = f[2]
        attrs = {}
        for n, v in zip(names, args):
            attrs[n] = v
        for k, v in kwargs.items():
            if k not in names:
                it.event("badcall", node, func=f[1], missing=k)
                it.kill(st)
                return BOT
            attrs[k] = v
        if len(attrs) != len(names) or len(args) > len(names):
            dfl = dict(f[3]) if len(f) > 3 else {}
            for n in names:
                if n not in attrs and n in dfl:
                    attrs[n] = dfl[n]
            if len(attrs) != len(names):
                it.event("badcall", node, func=f[1])
                it.kill(st)
                return BOT
        attrs = {n: attrs[n].add(it.pc) for n in names}
        return it.new(st, O("inst", cls=cls or f[1], attrs=attrs,
                            extra=("fields", names)), node, "nt")

    def call_obj(self, st, oid, args, kwargs, node):
        """call of an opaque callable object (e.g. an interpolant)"""
        it = self.it
        o = st.heap[oid]
        d = o.deps
        for a in list(args) + list(kwargs.values()):
            d = d | it.deps(st, a)
        nm = o.extra
        if kwargs or len(args) > 1:
            nu = args[1] if len(args) == 2 else kwargs.get("nu")
            if nu is not None and nu.s is not None and len(args) + \
                    len(kwargs) == 2 and isinstance(nm, tm.T):
                if nu.s.rational != 0:
                    nm = tm.afn("deriv", nm, nu.s)
            else:
                nm = None
        if args and (self.arrish(st, args[0])):
            def f(x, nm=nm):
                return tm.fn("call", nm, x)
            if not isinstance(nm, tm.T):
                part = self.arr_parts(st, args[0])
                return it.new_array(st, node, None, part[0], d,
                                    shape=part[2], tag="call")
            return self.elementwise(st, [args[0]], node, f).add(d) \
                if False else self._ew_dep(st, args[0], node, f, d)
        s = None
        if args and args[0].s is not None and isinstance(nm, tm.T):
            s = tm.fn("call", nm, args[0].s)
        return unk("num" if args and args[0].t <= NUMTAGS else "any", d, s)

    def _ew_dep(self, st, a, node, f, d):
        v = self.elementwise(st, [a], node, f)
        r = next(iter(st.heap[next(iter(v.r))].bases))
        st.heap[r] = st.heap[r].rep(deps=st.heap[r].deps | d)
        return v

    # helpers ------------------------------------------------------------
    def fig_of(self, st, axid):
        o = st.heap[axid]
        if o.items:
            return o.items[0]
        return unk("any")

    def isinstance_filter(self, st, v, tv, truth):
        names = self.type_names(st, tv)
        if names is None:
            return v
        c = frozenset(k for k in v.c if k == UNB
                      or _isinst(k[1], names) == truth)
        t = set()
        for x in v.t:
            r = _tag_isinst(x, names)
            if r is None:
                if truth and names <= {"str"}:
                    t.add("str")
                elif truth and names <= {"int", "float"}:
                    t.add("num" if len(names) > 1 else next(iter(names)))
                else:
                    t.add(x)
            elif r == truth:
                t.add(x)
        rr = frozenset(r for r in v.r
                       if self._obj_isinst(st, r, names) in (truth, None))
        return V(c, frozenset(t), rr, v.f if not truth else EMPTY, v.d,
                 v._s, v.x)

    def type_names(self, st, tv):
        out = set()
        for f in tv.f:
            if isinstance(f, tuple) and f[0] == "ext":
                out.add(f[1].split(".")[-1])
            elif isinstance(f, ip.ClassInfo):
                out.add(f.qual)
        for r in tv.r:
            o = st.heap.get(r)
            if o is not None and o.items is not None and not isinstance(
                    o.items, dict):
                for x in o.items:
                    n = self.type_names(st, x)
                    if n is None:
                        return None
                    out |= n
        return out or None

    def _obj_isinst(self, st, r, names):
        o = st.heap.get(r)
        if o is None:
            return None
        if o.kind == "array":
            return "ndarray" in names
        if o.kind in ("list", "tuple", "dict", "set"):
            if o.kind == "list" and "Sequence" in names:
                return True
            return o.kind in names
        if o.kind == "inst" and isinstance(o.cls, ip.ClassInfo):
            return any(c.qual in names for c in o.cls.mro())
        if o.kind == "inst":
            return "tuple" in names or any(str(o.cls) == n for n in names)
        if o.kind == "mixed":
            return None
        return False

    def call_ext(self, st, name, args, kwargs, node, star=None, kwrest=None):
        from . import extmodels
        if not self.it.terms:
            return extmodels.call(self, st, name, args, kwargs, node, star,
                                  kwrest)
        args, kwargs = Args(args), Kwargs(kwargs)
        return self.heeded(st, name, args, kwargs, node, extmodels.call(
            self, st, name, args, kwargs, node, star, kwrest))

    def call_method(self, st, recv, name, args, kwargs, node):
        from . import extmodels
        if not self.it.terms:
            return extmodels.method(self, st, recv, name, args, kwargs, node)
        args, kwargs = Args(args), Kwargs(kwargs)
        return self.heeded(st, "." + name, args, kwargs, node,
                           extmodels.method(self, st, recv, name, args,
                                            kwargs, node))

    def heeded(self, st, name, args, kwargs, node, v):
        """the result of an external function whose model did not look at
        an argument has an unknown value"""
        left = set(kwargs) - kwargs.seen - HARMLESS
        left |= {i for i in range(len(args)) if i not in args.seen}
        if not left or v.bottom:
            return v
        for r in v.r:
            o = st.heap.get(r)
            if o is None or o.kind != "array":
                continue
            if len(o.bases) == 1:
                b = next(iter(o.bases))
                reg = st.heap.get(b)
                if reg is not None and reg.kind == "region" and \
                        reg.content is not None:
                    st.heap[b] = reg.rep(content=None)
            if o.content is not None:
                st.heap[r] = o.rep(content=None)
        return V(v.c, v.t, v.r, v.f, v.d, None) if v.t and v.s is not None \
            else v

    def ext_index(self, st, name, idx, node):
        from . import extmodels
        return extmodels.index(self, st, name, idx, node)

    def view_fun(self, st, name, args, kwargs, node):
        from . import extmodels
        return extmodels.view_fun(self, st, name, args, kwargs, node)


class Kwargs(dict):
    """keyword arguments; remembers which were looked at"""

    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = set()

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, default=None):
        self.seen.add(k)
        return dict.get(self, k, default)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *default):
        self.seen.add(k)
        return dict.pop(self, k, *default)


class Args(list):
    """positional arguments; remembers which were looked at"""

    def __init__(self, xs):
        list.__init__(self, xs)
        self.seen = set()

    def __getitem__(self, k):
        n = len(self)
        self.seen |= set(range(*k.indices(n))) if isinstance(k, slice) \
            else {k % n if n else k}
        return list.__getitem__(self, k)

    def __iter__(self):
        self.seen |= set(range(len(self)))
        return list.__iter__(self)


HARMLESS = {"order", "copy", "subok"}


def _memo(f):
    memo = {}

    def g(i):
        k = tuple(i)
        v = memo.get(k)
        if v is None:
            v = memo[k] = f(i)
        return v
    return g


def length(part):
    """(the length of a vector,), () if it is not known"""
    return (part[2][0],) if part[2] and part[2][0] is not None else ()


def count(part):
    """how many elements of a vector are true"""
    return tm.fn("count", _reify(1, part[1]), *length(part), integer=True)


def _reify(rank, c):
    return tm.lam(rank, c)


def _is_full(idx):
    if isinstance(idx, tuple):
        return all(x is None or x.c == frozenset([ck(None)])
                   for x in idx[1:])
    if isinstance(idx, list):
        return all(not isinstance(x, V) and _is_full(x) for x in idx)
    return isinstance(idx, V) and bool(idx.c) and all(
        k[0] == "ellipsis" for k in idx.c)


def pick(i, ss):
    """element i of a known list"""
    r = i.rational
    if r is not None:
        return ss[int(r)]
    out = ss[-1]
    for k in range(len(ss) - 2, -1, -1):
        out = tm.phi(tm.eq0(i - k), ss[k], out)
    return out


def compose(v1, v2):
    """view v2 taken of view v1"""
    out = []
    for e in v1.entries:
        if e[0] == "i":
            out.append(e)
            continue
        _, k, lo, step = e
        f = v2.entries[k]
        if f[0] == "i":
            p = f[1] * step if step != 1 else f[1]
            out.append(("i", p + lo if lo is not None else p))
        else:
            _, k2, lo2, st2 = f
            p = None
            if lo2 is not None:
                p = lo2 * step if step != 1 else lo2
            if lo is not None:
                p = lo if p is None else p + lo
            out.append(("s", k2, p, step * st2))
    return View(tuple(out))


def tm_max(x, y):
    if x is y:
        return x
    a, b = x.rational, y.rational
    if a is not None and b is not None:
        return tm.num(max(a, b))
    return tm.phi(tm.ge0(x - y), x, y)


def tm_min(x, y):
    if x is y:
        return x
    a, b = x.rational, y.rational
    if a is not None and b is not None:
        return tm.num(min(a, b))
    return tm.phi(tm.ge0(y - x), x, y)


def _intlike(cs):
    return all(k[0] in ("int", "bool") for k in cs)


_PYT = {"int": int, "float": float, "str": str, "bool": bool,
        "complex": complex, "tuple": tuple, "list": list, "dict": dict}


def _isinst(k, names):
    for n in names:
        if n in _PYT and isinstance(k, _PYT[n]):
            return True
        if n in ("Number", "Real") and isinstance(k, (int, float)):
            return True
        if n == "Integral" and isinstance(k, int):
            return True
        if n == "Number" and isinstance(k, complex):
            return True
        if n == "NoneType" and k is None:
            return True
    return False


STRICT_NUM = [0]


def _tag_isinst(t, names):
    if t == FRESHSTR:
        t = "str"
    if t in ("any",):
        return None
    if t == "num":
        if STRICT_NUM[0] and not names & {"int", "float", "complex", "Number",
                                       "Real", "Integral", "number",
                                       "floating"}:
            return False
        return None
    if t == "bool":
        return bool(names & {"bool", "int", "Number", "Integral", "Real"})
    if t == "int":
        return bool(names & {"int", "Number", "Integral", "Real"})
    if t == "float":
        return bool(names & {"float", "Number", "Real"})
    if t == "complex":
        return bool(names & {"complex", "Number"})
    return t in names
