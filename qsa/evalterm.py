"""Polynomial identity testing of terms.

When two normal forms differ syntactically they may still denote the same
function (logarithm laws, overlapping brackets, ...).  Terms - never the
analysed program - are then compared at random points: atoms, array cells and
unknown functions get pseudo-random values that depend on their (evaluated)
arguments only, so that equal terms always evaluate equally.
"""
import bisect
import cmath
import hashlib
import math
import random
import struct
import time
from fractions import Fraction

from .terms import P, T
from . import terms as tm


DEBUG = False
PROBES = ((0, 0, 0, 0), (1, 1, 1, 1), (2, 1, 0, 2), (3, 2, 1, 1))
PROBES1 = tuple((k,) for k in (0, 1, 2, 3, 4, 6, 9))


class Undefined(Exception):
    """no value at this point (overflow, unbounded sum, ...)"""


#: longer arrays are not evaluated
LONGEST = [600]


class Long(Undefined):
    """too many elements"""


class Hole(Undefined):
    """division by zero"""


class Broken(Undefined):
    """an algorithm runs on data that are no numbers"""


CONST = {"pi": math.pi, "sc.h": 6.62607015e-34, "sc.e": 1.602176634e-19,
         "sc.k": 1.380649e-23, "sc.c": 299792458.0}


def _key(x):
    if isinstance(x, complex):
        if abs(x.imag) < 1e-12 * (1 + abs(x)):
            x = x.real
        else:
            return ("c", _round(x.real), _round(x.imag))
    if isinstance(x, (int, float)):
        return ("r", _round(x))
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return x


def _round(x):
    if x == 0 or abs(x) < 1e-13:
        return 0.0
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
        return repr(x)
    return float("%.6e" % x)


_FREES = {}


def frees(x):
    """index variables occurring in a term, as environment keys"""
    r = _FREES.get(x)
    if r is None:
        r = _FREES[x] = frozenset(
            ("l",) + t.args if t.op == "ldb" else t for t in x._fv)
    return r


def _coef(c):
    try:
        return float(c[0]) if c[1] == 0 else complex(float(c[0]),
                                                     float(c[1]))
    except OverflowError:
        raise Undefined("overflow")


def grouped(p):
    """the monomials of a polynomial, those that differ in conditions only
    together: [(other factors, [(coefficient, conditions)])]"""
    r = GROUPED.get(p)
    if r is None:
        d = {}
        for m, c in p.terms:
            k = tuple((b, e) for b, e in m if b.op != "br")
            d.setdefault(k, []).append(
                (_coef(c), [b for b, e in m if b.op == "br"]))
        r = GROUPED[p] = list(d.items())
    return r


GROUPED = {}


class Point(object):
    """a random valuation"""

    def __init__(self, seed, hints=None, budget=200000, shake=0):
        self.seed = seed
        self.hints = hints or {}
        self.memo = {}
        self.budget = budget
        self.scale = 0.0
        self.shake = shake        # inputs are changed in the last digits
        self.opaque = set()       # functions that were not looked into

    def last(self, x, key):
        """an input value, with its last digits changed when shaken"""
        if not self.shake or not isinstance(x, (float, complex)) or \
                x == int(_abs(x)):
            return x
        return x * (1 + 2e-13 * (self.rnd(("shake", self.shake, key),
                                          lo=0, hi=1) - .5))

    def rnd(self, key, real=True, pos=False, integer=False, lo=None, hi=None):
        h = hashlib.blake2b(repr((self.seed, key)).encode(),
                            digest_size=24).digest()
        u = [x / 2.0 ** 64 for x in struct.unpack(">QQQ", h)]
        if integer:
            lo = 2 if lo is None else lo
            hi = 5 if hi is None else hi
            return lo + int(u[0] * (hi - lo + 1))
        if lo is not None:
            return lo + (hi - lo) * u[0]
        x = 0.3 + 1.2 * u[0]
        if not pos and u[1] < 0.5:
            x = -x
        if real:
            return x
        y = 0.3 + 1.2 * u[2]
        return complex(x, y if u[1] * 4 % 1 < 0.5 else -y)

    # ------------------------------------------------------------------
    def p(self, p, env=()):
        key = (p, tuple((k, env[k]) for k in frees(p) if k in env)) \
            if env else p
        r = self.memo.get(key)
        if r is None:
            total, size = self.sized(p, env)
            self.scale = max(self.scale, size)
            r = self.memo[key] = total
        return r

    def sized(self, p, env):
        """(value, size of the largest summand)"""
        total, size = 0.0, 0.0
        for rest, conds in grouped(p):
            # conditions first: a false one hides values that do not exist
            f, why = self.weight(conds, env)
            if why is not None:
                raise why
            if f == 0:
                continue
            x = self.mono(rest, f, env)
            size = max(size, abs(x))
            total = total + x
        if isinstance(total, complex) and (total != total):
            raise Undefined("nan")
        if isinstance(total, float) and (total != total or
                                         abs(total) == float("inf")):
            raise Undefined("nan")
        return total, size

    def weight(self, conds, env):
        """(sum of coefficient * conditions, reason for not knowing it)"""
        total, open_, why = 0.0, {}, None
        for c, bs in conds:
            unknown = []
            for b in bs:
                try:
                    if not self.t(b, env):
                        break
                except Undefined as e:
                    if str(e) == "too much":
                        raise
                    unknown.append(b)
                    why = e
            else:
                if unknown:
                    k = frozenset(unknown)
                    open_[k] = open_.get(k, 0.0) + c
                else:
                    total = total + c
        if any(abs(x) > 1e-12 for x in open_.values()):
            return 0.0, why
        return total, None

    def mono(self, m, v, env):
        self.budget -= 1
        if self.budget < 0:
            raise Undefined("too much")
        rest = m
        ex = None                 # exponents are added before exp
        for b, e in rest:
            if b.op in ("exp", "expi"):
                x = self.p(b.args[0], env) * (
                    float(e) if isinstance(e, Fraction) else e)
                if b.op == "expi":
                    x = x * 1j
                ex = x if ex is None else ex + x
                continue
            x = self.t(b, env)
            if e != 1:
                x = self.pow(x, e)
            v = v * x
        if ex is not None:
            try:
                v = v * (cmath.exp(ex) if isinstance(ex, complex)
                         else math.exp(ex))
            except OverflowError:
                raise Undefined("exp")
        return v

    def pow(self, x, e):
        try:
            if isinstance(e, Fraction) and e.denominator == 1:
                if x == 0 and e < 0:
                    raise Hole("1/0")
                return x ** int(e)
            f = float(e) if isinstance(e, Fraction) else e
            if x == 0:
                if isinstance(f, complex) or f < 0:
                    raise Hole("1/0")
                return 0.0 if f else 1.0
            if isinstance(x, complex) and abs(x.imag) < 1e-13 * abs(x):
                x = x.real
            if isinstance(x, complex) or x < 0 or isinstance(f, complex):
                return cmath.exp(f * cmath.log(x))
            return x ** f
        except (OverflowError, ZeroDivisionError, ValueError):
            raise Undefined("pow")

    def arg(self, a, env):
        if isinstance(a, P):
            return self.p(a, env)
        if isinstance(a, T):
            return self.arrkey(a, env)
        if isinstance(a, tuple):
            return tuple(self.arg(z, env) for z in a)
        return a

    def arrkey(self, t, env):
        """an extensional key of an array term"""
        key = ("arrkey", t, tuple((k, env[k]) for k in frees(t)
                                  if k in env) if env else ())
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._arrkey(t, env)
        return r

    def _arrkey(self, t, env):
        if t.op == "arr":
            return ("arr", t.args)
        if t.op == "lam":
            rank, d, body = t.args
            out = []
            for probe in PROBES1 if rank == 1 else PROBES:
                e2 = dict(env)
                for i in range(rank):
                    e2[("l", d, i)] = probe[i]
                try:
                    out.append(_key(self.p(body, e2)))
                except Undefined:
                    out.append("undef")
            return ("lam", rank, tuple(out))
        if t.op == "afn":
            return ("afn", t.args[0]) + tuple(
                _key(self.arg(a, env)) for a in t.args[1:])
        if t.op in ("atom",):
            return ("atom", t.args)
        try:
            return _key(self.t(t, env))
        except Undefined:
            raise

    def t(self, t, env):
        op = t.op
        if env:
            key = (t, tuple((k, env[k]) for k in frees(t) if k in env))
        else:
            key = t
        if key is not None:
            r = self.memo.get(key)
            if r is not None:
                return r
        r = self._t(t, env)
        if key is not None:
            self.memo[key] = r
        return r

    def _t(self, t, env):
        op, a = t.op, t.args
        if op == "atom":
            h = self.hints.get(a[0])
            if h is None and a[0].startswith("n") and "(" in a[0]:
                h = self.hints.get("#len")
            if callable(h):
                return self.last(h(self, a[0]), a[0])
            if h is None:
                h = CONST.get(a[0])
            if h is not None:
                return self.last(h, a[0])
            if a[0] in ("nan", "inf"):
                raise Undefined(a[0])
            return self.last(self.rnd(a[0], t.real, t.pos, t.integer), a[0])
        if op in ("bv", "ldb", "db"):
            k = ("l", a[0], a[1]) if op == "ldb" else t
            if k in env:
                return env[k]
            h = self.hints.get(t)
            if h is not None:
                return h
            raise Undefined("free index")
        if op == "sel":
            idx = tuple(self.p(i, env) for i in a[1])
            return self.cell(a[0], idx, t.real, env)
        if op == "conj":
            x = self.t(a[0], env)
            return x.conjugate()
        if op == "let":
            return self.p(a[0], env)
        if op == "exp":
            x = self.p(a[0], env)
            try:
                return cmath.exp(x) if isinstance(x, complex) \
                    else math.exp(x)
            except OverflowError:
                raise Undefined("exp")
        if op == "expi":
            try:
                return cmath.exp(1j * self.p(a[0], env))
            except OverflowError:
                raise Undefined("exp")
        if op == "ln":
            x = self.p(a[0], env)
            if x == 0:
                raise Undefined("ln 0")
            if isinstance(x, complex) or x < 0:
                return cmath.log(x)
            return math.log(x)
        if op == "pw":
            return self.p(a[0], env)
        if op == "br":
            return self.bracket(a, env)
        if op == "fn":
            return self.fn(t, env)
        if op == "sum":
            return self.sum(t, env)
        raise Undefined(op)

    def cell(self, arr, idx, real, env):
        idx = tuple(snap(x) for x in idx)
        k = None
        if not understood(arr):
            k = self.arrkey(arr, env)
        h = self.hints.get(("cell", arr.args[0] if arr.op == "arr"
                            else None))
        if h is not None:
            r = h(self, idx)
            if r is not None:
                return self.last(r, ("cell", arr.args[0], idx))
        h = self.hints.get(("afn", arr.args[0])) if arr.op == "afn" else None
        if h is not None:
            return h(self, arr, idx, env)
        xs = None
        if understood(arr):
            try:
                xs = self.values(arr, env)
            except Long:
                self.opaque.add(arr.args[0])
                k = self.arrkey(arr, env)
        if xs is not None:
            try:
                k = int(round(_re(idx[0])))
            except ValueError:
                raise Undefined("index")
            if len(idx) != 1 or not 0 <= k < len(xs):
                raise Undefined("index")
            return xs[k]
        if arr.op == "arr" and arr.args[0][:5] == "?list":
            return self.rnd(("sel", k, _key(idx)), True, True, True, 0, 9)
        k = ("sel", k, _key(idx))
        return self.last(self.rnd(k, real), k)

    def bracket(self, a, env):
        if a[0] in ("ge", "gt", "eq"):
            try:
                x, s = self.sized(a[1], env)
            except Undefined:
                if not quotient(a[1]):
                    raise
                # (terms do not tell [x > 0] from 1 - [-x >= 0], which
                # differ if x is no number)
                x = self.special(a[1], env)
                if x == "nan":
                    raise Hole("no order")
                if x is None:
                    raise
                return int(x == "inf")
            if isinstance(x, complex):
                if a[0] != "eq" and abs(x.imag) > 1e-9 * (1 + abs(x)):
                    raise Undefined("order of complex numbers")
                if a[0] != "eq":
                    x = x.real
            if a[0] == "eq":
                return 1 if abs(x) <= 1e-9 * s else 0
            s = 1e-12 * s
            if a[0] == "ge":
                return 1 if x >= -s else 0
            return 1 if x > s else 0
        if countable(a[1:]):
            xs = self.elements(a[2], a[3], env)
            if xs is not None:
                return int((all if a[1] == "all" else any)(
                    abs(x) > 1e-9 for x in xs))
        if derived(a):
            kind = self.special(a[2], env)
            return int(kind is None if a[1] == "isfinite" else
                       kind is not None and kind[-3:] == a[1][2:])
        k = _key(tuple(self.arg(z, env) for z in a[1:]))
        h = self.hints.get(("br", a[1]))
        if callable(h):
            return h(self, k)
        if h is not None:
            return h
        if a[1] in ("isnan",):
            return 0
        return self.rnd(("br", k), integer=True, lo=0, hi=1)

    def special(self, p, env):
        """"nan", "inf", "-inf" or None for what a quotient is at this
        point"""
        out = None
        for rest, conds in grouped(p):
            sign, why = self.weight(conds, env)
            if why is not None:
                raise why
            if sign == 0:
                continue
            big = small = False
            for b, e in rest:
                x = tm.lift(b)
                if b.op == "sel" and self.bracket(
                        ("fn", "isnan", x), env):
                    return "nan"
                if b.op == "pw":
                    y, size = self.sized(b.args[0], env)
                else:
                    y, size = self.p(x, env), 0.
                if abs(y) <= 1e-12 * size and not isinstance(e, P):
                    big, small = big or e < 0, small or e > 0
                elif isinstance(y, complex) or isinstance(e, P) or \
                        y < 0 and e != int(e):
                    sign = None
                elif sign is not None and y < 0 and e % 2:
                    sign = -sign
            if big:
                if small or out or not isinstance(sign, float):
                    return "nan"
                out = "inf" if sign > 0 else "-inf"
        return out

    def fn(self, t, env):
        nm, args = t.args[0], t.args[1:]
        f = self.hints.get(("fn", nm))
        if f is not None:
            r = f(self, t, env)
            if r is not None:
                return r
        if countable(t.args):
            xs = self.elements(args[0], args[1], env)
            if xs is not None:
                return REDUCTIONS[nm](xs)
        if nm in LFN and located(t.args):
            try:
                return LFN[nm](self, env, *args)
            except Long:
                self.opaque.add(nm)
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                raise Undefined(nm)
        if nm in FN:
            xs = [self.arg(z, env) for z in args]
            try:
                return FN[nm](*xs)
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                raise Undefined(nm)
        xs = _key(tuple(self.arg(z, env) for z in args))
        return self.rnd(("fn", nm, xs), t.real, t.pos, t.integer, 0 if
                        t.integer else None, 7 if t.integer else None)

    def elements(self, arr, n, env, real=True, holes=False):
        """the elements of a one-dimensional array term (``holes``: also
        what is no number)"""
        if arr.op == "lam" and arr.args[0] != 1:
            return None
        key = ("elements", real, arr, n, tuple(
            (k, env[k]) for k in frees(arr) | frees(n) if k in env))
        r = self.memo.get(key)
        if r is None:
            try:
                r = self._elements(arr, n, env, real)
            except Undefined as e:
                r = e
            self.memo[key] = r
        if isinstance(r, Undefined):
            raise r
        if holes:
            return r
        for x in r:
            if isinstance(x, Hole):
                raise x
        return r

    def values(self, t, env):
        """the elements of an array function that is understood"""
        key = ("values", t, tuple((k, env[k]) for k in frees(t)
                                  if k in env))
        r = self.memo.get(key)
        if r is None:
            try:
                r = AFN[t.args[0]](self, env, *t.args[1:])
            except Undefined as e:
                r = e
            except (ValueError, OverflowError, ZeroDivisionError,
                    TypeError):
                r = Undefined(t.args[0])
            self.memo[key] = r
        if isinstance(r, Undefined):
            raise r
        return r

    def real(self, p, env):
        try:
            return _re(self.p(p, env))
        except ValueError:
            raise Undefined("complex")

    def whole(self, p, env):
        x = self.real(p, env)
        if abs(x - round(x)) > 1e-6:
            raise Undefined("no integer")
        return int(round(x))

    def _elements(self, arr, n, env, real):
        try:
            n = _re(self.p(n, env))
        except ValueError:
            raise (Long if n > LONGEST[0] else Undefined)("length")
        if abs(n - round(n)) > 1e-9 or n > LONGEST[0] or n < 1:
            raise (Long if n > LONGEST[0] else Undefined)("length")
        out = []
        for k in range(int(round(n))):
            if arr.op == "lam":
                e2 = dict(env)
                e2[("l", arr.args[1], 0)] = k
                try:
                    x = self.p(arr.args[2], e2)
                except Hole as e:
                    out.append(e)
                    continue
            else:
                x = self.cell(arr, (k,), arr.real, env)
            try:
                out.append(_re(x) if real else x)
            except ValueError:
                raise Undefined("complex")
        return out

    # ---------------------------------------------------------------- sums
    def sum(self, t, env):
        vs, body = tm.opened(t)
        total = 0.0
        for m, c in body.terms:
            total = total + self.sum1(list(vs), m, c, dict(env))
        return total

    def sum1(self, vs, m, c, env):
        if not vs:
            f, why = self.weight([(_coef(c), [b for b, e in m
                                              if b.op == "br"])], env)
            if why is not None:
                raise why
            return self.mono(tuple((b, e) for b, e in m if b.op != "br"),
                             f, env) if f else 0.0
        cons = [b for b, e in m if b.op == "br" and b.args[0] in
                ("ge", "gt", "eq")]
        # a binder bounded by conditions on known values
        for v in vs:
            lo = hi = None
            others = [u for u in vs if u is not v]
            for b in cons:
                p = b.args[1]
                if v not in p._fv or any(u in p._fv for u in others):
                    continue
                k = tm.coef_of(p, v)
                if not k:
                    continue
                rest = p - tm.lift(v) * tm.num(k)
                if v in rest._fv:
                    continue
                r = self.p(rest, env)
                if isinstance(r, complex):
                    r = r.real
                z = -r / float(k)          # p = k (v - z)
                if b.args[0] == "eq":
                    lo = math.ceil(z - 1e-9) if lo is None else max(
                        lo, math.ceil(z - 1e-9))
                    hi = math.floor(z + 1e-9) if hi is None else min(
                        hi, math.floor(z + 1e-9))
                elif k > 0:
                    q = math.ceil(z - 1e-9)
                    lo = q if lo is None else max(lo, q)
                else:
                    q = math.floor(z + 1e-9)
                    hi = q if hi is None else min(hi, q)
            if lo is not None and hi is not None:
                if hi - lo > 2000:
                    raise Undefined("long sum")
                total = 0.0
                for x in range(lo, hi + 1):
                    e2 = dict(env)
                    e2[v] = x
                    # conditions that are decided already
                    ok = True
                    for b in cons:
                        if v in b._fv and not any(u in b._fv
                                                  for u in others):
                            if not self.t(b, e2):
                                ok = False
                                break
                    if ok:
                        total = total + self.sum1(others, m, c, e2)
                return total
        raise Undefined("unbounded sum")


def _rnd_half_even(x):
    return float(round(_re(x)))


def _re(x):
    if isinstance(x, complex):
        if abs(x.imag) > 1e-9 * (1 + abs(x)):
            raise ValueError
        return x.real
    return x


def snap(x):
    """an index without rounding errors"""
    if isinstance(x, complex):
        if abs(x.imag) > 1e-5:
            return x
        x = x.real
    k = float(round(x)) if abs(x) < 1e15 else x
    return k if abs(x - k) < 1e-5 else x


def _floor(x):
    return float(math.floor(_re(x) + 1e-9))


def _ceil(x):
    return float(math.ceil(_re(x) - 1e-9))


def _jv(n, x):
    """Bessel function of integer order, real argument"""
    n, x = _re(n), _re(x)
    if n != int(n) or abs(n) > 60 or abs(x) > 25:
        raise Undefined("jv")
    n = int(n)
    if n < 0:
        return (-1) ** n * _jv(-n, x)
    t = 1.0
    for k in range(1, n + 1):
        t *= x / 2 / k
    out, m, q = 0.0, 0, x * x / 4
    while True:
        out += t
        m += 1
        t *= -q / (m * (m + n))
        if abs(t) < 1e-18 * abs(out) or abs(t) < 1e-300:
            return out


def _inv(i, j, *cells):
    """element of an inverse matrix"""
    n = int(round(len(cells) ** .5))
    i, j = int(_re(i)), int(_re(j))
    rows = [list(cells[k * n:k * n + n]) for k in range(n)]
    rhs = [1. if k == j else 0. for k in range(n)]
    for c in range(n):
        k = max(range(c, n), key=lambda r: abs(rows[r][c]))
        if abs(rows[k][c]) < 1e-9 * (1 + max(map(abs, cells))):
            raise Undefined("singular")
        rows[c], rows[k] = rows[k], rows[c]
        rhs[c], rhs[k] = rhs[k], rhs[c]
        for r in range(n):
            if r != c:
                f = rows[r][c] / rows[c][c]
                if f:
                    rows[r] = [a - f * b for a, b in zip(rows[r], rows[c])]
                    rhs[r] -= f * rhs[c]
    return rhs[i] / rows[i][i]


FN = {
    "inv": _inv, "jv": _jv, "angle": cmath.phase,
    "erf": lambda x: math.erf(_re(x)), "gamma": lambda x: math.gamma(_re(x)),
    "sin": cmath.sin, "cos": cmath.cos, "tan": cmath.tan,
    "sinh": cmath.sinh, "cosh": cmath.cosh, "tanh": cmath.tanh,
    "arctan": cmath.atan, "arcsin": cmath.asin, "arccos": cmath.acos,
    "len_ceil": lambda x: max(0., _ceil(x)), "abs": abs, "floor": _floor, "ceil": _ceil, "round": _rnd_half_even,
    "roundn": lambda x, n: round(_re(x), int(n)),
    "mod": lambda x, y: _re(x) % _re(y),
    "trunc": lambda x: float(math.trunc(_re(x))),
    "sgnpow": lambda x: -1.0 if int(round(_re(x))) % 2 else 1.0,
    "arctan2": lambda y, x: math.atan2(_re(y), _re(x)),
}


def _med(xs):
    xs = sorted(xs)
    n = len(xs)
    return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


REDUCTIONS = {
    "count": lambda xs: sum(1 for x in xs if abs(x) > 1e-9),
    "min": min, "max": max, "median": _med,
    "any": lambda xs: float(any(abs(x) > 1e-9 for x in xs)),
    "all": lambda xs: float(all(abs(x) > 1e-9 for x in xs)),
    "argmin": lambda xs: xs.index(min(xs)),
    "argmax": lambda xs: xs.index(max(xs)),
    "count_nonzero": lambda xs: sum(1 for x in xs if x),
    "ptp": lambda xs: max(xs) - min(xs),
}

# the same for points at which all elements are numbers
REDUCTIONS.update(("nan" + _k, REDUCTIONS[_k]) for _k in (
    "min", "max", "median", "argmin", "argmax"))


# functions of arrays that are understood: (point, env, arguments) -> values
def _interp(pt, env, z, xs, ys, n, left=None, right=None):
    z = pt.real(z, env)
    xs = pt.elements(xs, n, env, True, True)
    ys = pt.elements(ys, n, env, False, True)
    ready = pt.memo.get(("order", id(xs)))
    if ready is None:
        if any(isinstance(x, Hole) for x in xs):
            raise Broken("interpolation between points at no number")
        ready = pt.memo["order", id(xs)] = all(
            a <= b for a, b in zip(xs, xs[1:])), xs

    def at(k):
        if isinstance(ys[k], Hole):
            raise ys[k]
        return ys[k]
    if not ready[0]:
        raise Undefined("interpolation of unsorted data")
    if z < xs[0]:
        return at(0) if left is None else pt.p(left, env)
    if z > xs[-1]:
        return at(-1) if right is None else pt.p(right, env)
    if len(xs) == 1:
        return at(-1)
    k = max(bisect.bisect_left(xs, z) - 1, 0)
    if xs[k] == xs[k + 1]:
        raise Undefined("double values")
    return at(k) + (at(k + 1) - at(k)) * (z - xs[k]) / (xs[k + 1] - xs[k])


def _nthtrue(pt, env, m, i, n):
    ms = pt.elements(m, n, env)
    i = pt.whole(i, env)
    at = [k for k, x in enumerate(ms) if x]
    if not 0 <= i < len(at):
        raise Undefined("index")
    return at[i]


LFN = {"interp": _interp, "nthtrue": _nthtrue}


def located(args):
    """the lengths of the arrays are known"""
    if args[0] == "interp":
        return len(args) >= 5 and isinstance(args[4], P)
    return len(args) == 4 and isinstance(args[3], P)


def _argsort(pt, env, xs, n):
    xs = pt.elements(xs, n, env)
    return sorted(range(len(xs)), key=lambda k: xs[k])


def lsq(xs, ys, deg):
    """least-squares polynomial, highest power first"""
    n = deg + 1
    if len(xs) < n:
        raise Undefined("few points")
    s = max(abs(x) for x in xs) or 1.
    xs = [x / s for x in xs]
    rows = [[math.fsum(x ** (i + j) for x in xs) for j in range(n)] +
            [math.fsum(y * x ** i for x, y in zip(xs, ys))]
            for i in range(n)]
    for c in range(n):
        k = max(range(c, n), key=lambda r: abs(rows[r][c]))
        if abs(rows[k][c]) < 1e-9 * len(xs):
            raise Undefined("singular")
        rows[c], rows[k] = rows[k], rows[c]
        for r in range(n):
            if r != c:
                f = rows[r][c] / rows[c][c]
                rows[r] = [a - f * b for a, b in zip(rows[r], rows[c])]
    return [rows[k][n] / rows[k][k] / s ** k for k in reversed(range(n))]


def _polyfit(deg):
    def f(pt, env, xs, ys, n):
        return lsq(pt.elements(xs, n, env), pt.elements(ys, n, env), deg)
    return f


def _linregress(pt, env, xs, ys, n):
    xs, ys = pt.elements(xs, n, env), pt.elements(ys, n, env)
    a, b = lsq(xs, ys, 1)
    mx, my = math.fsum(xs) / len(xs), math.fsum(ys) / len(ys)
    sxy = math.fsum((x - mx) * (y - my) for x, y in zip(xs, ys))
    r = sxy / math.sqrt(math.fsum((x - mx) ** 2 for x in xs) *
                        math.fsum((y - my) ** 2 for y in ys))
    return [a, b, r]


def _savgol(pt, env, xs, w, deg, n):
    xs = pt.elements(xs, n, env)
    w, deg = pt.whole(w, env), pt.whole(deg, env)
    if w > len(xs) or deg >= w or w % 2 == 0 or deg > 6:
        raise Undefined("window")
    h, m = w // 2, len(xs)
    out = []
    for k in range(m):
        c = min(max(k, h), m - 1 - h)
        q = lsq([float(j) for j in range(-h, h + 1)],
                xs[c - h:c + h + 1], deg)
        y = 0.
        for z in q:
            y = y * (k - c) + z
        out.append(y)
    return out


def _convolve(mode):
    def f(pt, env, xs, n1, ys, n2):
        xs, ys = pt.elements(xs, n1, env, False), pt.elements(
            ys, n2, env, False)
        if len(ys) > len(xs):
            xs, ys = ys, xs
        a, b = len(xs), len(ys)
        full = [0.] * (a + b - 1)
        for i, x in enumerate(xs):
            for j, y in enumerate(ys):
                full[i + j] += x * y
        if mode == "full":
            return full
        if mode == "same":
            return full[(b - 1) // 2:(b - 1) // 2 + a]
        return full[b - 1:a]
    return f


AFN = {"argsort": _argsort, "savgol_filter": _savgol,
       "sort": lambda pt, env, xs, n: sorted(pt.elements(xs, n, env)),
       "linregress": _linregress}
for _k in range(7):
    AFN["polyfit%d" % _k] = _polyfit(_k)
for _k in ("full", "same", "valid"):
    AFN["convolve:" + _k] = _convolve(_k)
LENGTH = {"argsort": 3, "sort": 3, "savgol_filter": 5, "linregress": 4}


def understood(t):
    """an array function that can be evaluated"""
    if t.op != "afn" or t.args[0] not in AFN:
        return False
    nm = t.args[0]
    if nm[:9] == "convolve:":
        return isinstance(t.args[2], P) and isinstance(t.args[4], P)
    n = 4 if nm[:7] == "polyfit" else LENGTH[nm]
    return len(t.args) == n and isinstance(t.args[-1], P) and all(
        x.op in ("arr", "afn") or x.op == "lam" and x.args[0] == 1
        for x in t.args[1:] if isinstance(x, T))


def _pow(a, b):
    if isinstance(b, float) and b == int(b):
        return a ** int(b)
    if isinstance(a, complex) or isinstance(b, complex) or a < 0:
        return cmath.exp(b * cmath.log(a))
    return a ** b


FN["pow"] = _pow


def close(x, y, scale=0.0, tol=1e-7):
    return abs(x - y) <= tol * (abs(x) + abs(y)) + 1e-12 * scale + 1e-290


def rough(a, b, pt, x, y):
    """x and y, far from each other, are the same up to rounding"""
    size = 0.
    try:
        for t in (a, b):
            size = max(size, pt.sized(t, ())[1])
        if abs(x - y) <= 1e-9 * size:
            return True
        noise = 0.
        for k in (1, 2, 3):
            other = Point(pt.seed, {h: v for h, v in pt.hints.items()},
                          shake=k)
            noise = max(noise, abs(other.p(a) - x), abs(other.p(b) - y))
    except (Undefined, RecursionError, OverflowError, ZeroDivisionError):
        return True
    return abs(x - y) <= 1e3 * noise


def _abs(x):
    x = abs(x)
    return x if x < 1e15 else 0


def derived(a):
    """a condition about a quotient being a number"""
    return a[1] in ("isnan", "isfinite", "isinf") and len(a) == 3 and \
        isinstance(a[2], P) and quotient(a[2])


def quotient(p):
    r = _QUOTIENT.get(p)
    if r is None:
        r = _QUOTIENT[p] = any(
            b.op != "br" and not isinstance(e, P) and e < 0
            for m, c in p.terms for b, e in m)
    return r


_QUOTIENT = {}


def countable(args):
    """a reduction whose elements can be enumerated"""
    return args[0] in REDUCTIONS and len(args) == 3 and isinstance(
        args[1], T) and isinstance(args[2], P) and (
            args[1].op in ("arr", "afn") or
            args[1].op == "lam" and args[1].args[0] == 1)


def unseen(p):
    """functions and values the analysis does not look into"""
    out = set()
    for t in tm.subterms(p):
        if t.op in ("arr", "atom"):
            if t.args[0][:1] == "?":
                out.add(t.args[0])
        elif t.op == "afn":
            if not understood(t):
                out.add(t.args[0])
        elif t.op == "fn":
            if t.args[0] not in FN and not countable(t.args) and not (
                    t.args[0] in LFN and located(t.args)):
                out.add(t.args[0])
        elif t.op == "br" and t.args[0] == "fn":
            if t.args[1] != "isnan" and not countable(t.args[1:]) and \
                    not derived(t.args):
                out.add(t.args[1])
    return out


def compare(a, b, hints=(), rounds=None, free=None, seed=1):
    """True equal, False different, None undecided (``a``: of the program,
    ``b``: specified).

    ``hints``: list of hint dictionaries tried in turn.  ``free``: {bv: fn(
    point) -> int} values of free indices.  ``rounds``: points per hint."""
    try:
        if tm.equal(a, b):
            return True, None
    except tm.TooBig:
        pass
    good = bad = 0
    wit = None
    t0 = time.time()
    trials = rounds * len(hints) if rounds else max(24, 6 * len(hints))
    for k in range(4 * trials):
        if k >= trials and bad != 1:
            break
        if k >= 6 and time.time() - t0 > (40 if rounds else 6):
            break
        hint = dict(hints[k % len(hints)]) if hints else {}
        pt = Point((seed, k), hint)
        try:
            for v, f in (free or {}).items():
                pt.hints[v] = f(pt)
            try:
                x = pt.p(a)
            except Broken as e:
                x = e
            except Hole as e:
                x = pt.special(a, ()) if quotient(a) else None
                if x is None:
                    raise
            mine = set(pt.opaque)
            y = pt.p(b)
        except (Undefined, RecursionError, OverflowError, ZeroDivisionError) as e:
            if DEBUG: print("point", k, repr(e))
            continue
        if not isinstance(x, (Broken, str)) and close(x, y, pt.scale) and (
                close(x, y) or rough(a, b, pt, x, y)):
            good += 1
        else:
            if mine and not mine <= {t.args[0] for t in tm.subterms(b)
                                     if t.op in ("fn", "afn")}:
                return None, None
            bad += 1
            wit = (x, y)
    if DEBUG:
        print(good, bad, wit, unseen(a), unseen(b))
    if bad >= 2:
        # the program may do the same with means that are not understood
        if not unseen(a) <= unseen(b):
            return None, None
        return False, wit
    if good >= 3 and not bad:
        return True, None
    return None, None
