"""Value-numbering terms: a canonical form for the scalar values a program
computes.

A scalar value is a polynomial ``P`` with complex-rational coefficients over
interned base terms ``T`` with rational exponents.  Choices between branches
are written with Iverson brackets (``b + [c]*(a-b)``), sums over integer
indices as unbounded sums of guarded bodies, ``abs``/``real``/``imag`` through
complex conjugation, powers of numbers and ``log`` through ``exp``/``ln``.  Two
values with the same canonical form are equal wherever both are defined.
"""
from fractions import Fraction
import itertools
import math

ZERO, ONE = Fraction(0), Fraction(1)

# --------------------------------------------------------------------------
# complex rationals as (re, im) tuples of Fractions


def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0], ZERO)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cinv(a):
    n = a[0] * a[0] + a[1] * a[1]
    return (a[0] / n, -a[1] / n)


C1 = (ONE, ZERO)
CM1 = (-ONE, ZERO)

# --------------------------------------------------------------------------
_T = {}
_P = {}


class T(object):
    """Interned base term."""
    __slots__ = ("op", "args", "real", "integer", "id", "_fv", "pos")

    def __repr__(self):
        return show_t(self)


def mk(op, args=(), real=True, integer=False, pos=False):
    key = (op, args)
    t = _T.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.real, t.integer = op, args, real, integer
        t.pos = pos
        t.id = len(_T)
        fv = frozenset()
        if op in INDEX:
            fv = frozenset([t])
        else:
            for a in args:
                if isinstance(a, (P, T)):
                    fv |= a._fv
                elif isinstance(a, tuple):
                    for x in a:
                        if isinstance(x, (P, T)):
                            fv |= x._fv
        if op == "sum" and fv:
            fv -= frozenset(_db(args[1], i) for i in range(args[0]))
        elif op == "lam" and fv:
            fv -= frozenset(_ldb(args[1], i) for i in range(args[0]))
        t._fv = fv
        _T[key] = t
    return t


#: index variables: free ones, and those bound by a sum or a lambda
INDEX = ("bv", "db", "ldb")


class P(object):
    """Interned polynomial over base terms."""
    __slots__ = ("terms", "_fv", "id")

    def __repr__(self):
        return show(self)

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        d = dict(self.terms)
        for m, c in o.terms:
            if m in d:
                s = cadd(d[m], c)
                if s == (ZERO, ZERO):
                    del d[m]
                else:
                    d[m] = s
            else:
                d[m] = c
        return mkp(d)

    def __neg__(self):
        return mkp({m: (-c[0], -c[1]) for m, c in self.terms})

    def __sub__(self, o):
        return self + (-lift(o))

    def __mul__(self, o):
        o = lift(o)
        if len(self.terms) * len(o.terms) > 8 * MAXTERMS:
            raise TooBig()
        d = {}
        for m1, c1 in self.terms:
            for m2, c2 in o.terms:
                c = cmul(c1, c2)
                for m, k in mmul(m1, m2):
                    cc = cmul(c, k) if k is not C1 else c
                    if m in d:
                        s = cadd(d[m], cc)
                        if s == (ZERO, ZERO):
                            del d[m]
                        else:
                            d[m] = s
                    else:
                        d[m] = cc
        return mkp(d)

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return lift(o) - self

    def __truediv__(self, o):
        return self * power(lift(o), -1)

    def __rtruediv__(self, o):
        return lift(o) * power(self, -1)

    # queries --------------------------------------------------------------
    @property
    def const(self):
        """(re, im) if a number else None"""
        if not self.terms:
            return (ZERO, ZERO)
        if len(self.terms) == 1 and self.terms[0][0] == ():
            return self.terms[0][1]
        return None

    @property
    def rational(self):
        c = self.const
        if c is not None and c[1] == 0:
            return c[0]
        return None

    @property
    def constant(self):
        """the real part of the constant term"""
        for m, c in self.terms:
            if m == ():
                return c[0]
        return ZERO

    @property
    def real(self):
        return all(c[1] == 0 and all(b.real for b, _ in m)
                   for m, c in self.terms)

    @property
    def integer(self):
        for m, c in self.terms:
            if c[1] != 0 or c[0].denominator != 1:
                return False
            for b, e in m:
                if not b.integer or e.denominator != 1 or e < 0:
                    return False
        return True


class TooBig(Exception):
    pass


#: longer polynomials are given up
MAXTERMS = 600


def mkp(d):
    items = tuple(sorted(d.items(), key=lambda kv: tuple(
        (b.id, e) for b, e in kv[0])))
    p = _P.get(items)
    if p is None:
        if len(items) > MAXTERMS:
            raise TooBig()
        p = P()
        p.terms = items
        fv = frozenset()
        for m, _ in items:
            for b, _e in m:
                fv |= b._fv
        p._fv = fv
        p.id = len(_P)
        _P[items] = p
    return p


def total(ps):
    """sum of many polynomials"""
    d = {}
    for p in ps:
        for m, c in p.terms:
            if m in d:
                x = cadd(d[m], c)
                if x == (ZERO, ZERO):
                    del d[m]
                else:
                    d[m] = x
            else:
                d[m] = c
    return mkp(d)


def mono(m, c=C1):
    return mkp({m: c} if c != (ZERO, ZERO) else {})


def lift(x):
    if isinstance(x, P):
        return x
    if isinstance(x, T):
        return mono(((x, ONE),))
    return num(x)


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, Fraction):
        c = (x, ZERO)
    elif isinstance(x, int):
        c = (Fraction(x), ZERO)
    elif isinstance(x, float):
        if x != x:
            return lift(mk("atom", ("nan",)))
        if x in (float("inf"), float("-inf")):
            return lift(mk("atom", ("inf",))) * (1 if x > 0 else -1)
        c = (Fraction(repr(x)), ZERO)
    elif isinstance(x, complex):
        c = (Fraction(repr(x.real)), Fraction(repr(x.imag)))
    else:
        raise TypeError(x)
    if c == (ZERO, ZERO):
        return mkp({})
    return mkp({(): c})


I = None       # set below


def mmul(m1, m2):
    """Product of two monomials as [(monomial, coef)] (brackets idempotent,
    integer powers of opaque sums are expanded)."""
    if not m1:
        return ((m2, C1),)
    if not m2:
        return ((m1, C1),)
    d = dict(m1)
    expand = []
    for b, e in m2:
        if b in d:
            e = d[b] + e
        if b.op == "br":
            e = ONE
        if e == 0:
            d.pop(b, None)
        else:
            d[b] = e
    for b in list(d):
        if b.op == "pw" and d[b] >= 1:
            n = d[b].numerator // d[b].denominator
            rest = d[b] - n
            expand.append((b, n))
            if rest == 0:
                del d[b]
            else:
                d[b] = rest
    eqs = None
    for b in d:
        if b.op == "br" and b.args[0] == "eq":
            eqs = [b] if eqs is None else eqs + [b]
    if eqs is not None:
        gone = _exclusive(d, eqs)
        if gone is None:
            return ()
        for b in gone:
            del d[b]
    m = tuple(sorted(d.items(), key=lambda be: be[0].id))
    if not expand:
        return ((m, C1),)
    p = mono(m)
    for b, n in expand:
        for _ in range(n):
            p = p * b.args[0]
    return p.terms


_SPLIT = {}


def _split(b):
    """(non-constant part scaled to leading coefficient one, constant,
    scale) of the argument of a bracket"""
    r = _SPLIT.get(b)
    if r is None:
        p = b.args[1]
        d = {m: c for m, c in p.terms if m != ()}
        k = dict(p.terms).get((), (ZERO, ZERO))
        if not d or any(c[1] != 0 for c in d.values()) or k[1] != 0:
            r = (None, None, None)
        else:
            core = mkp(d)
            lead = core.terms[0][1][0]
            r = (core * mono((), (1 / lead, ZERO)), k[0] / lead, lead)
        _SPLIT[b] = r
    return r


def _exclusive(d, eqs):
    """brackets of the product that follow from its equations; None if they
    exclude each other"""
    gone = ()
    for q in eqs:
        core, k, _ = _split(q)
        if core is None:
            continue
        for b in d:
            if b is q or b.op != "br" or b.args[0] not in (
                    "eq", "ge", "gt"):
                continue
            c2, k2, lead = _split(b)
            if c2 is not core:
                continue
            # core == -k
            x = (k2 - k) * lead
            if b.args[0] == "eq":
                return None        # two different constants
            if (x >= 0) if b.args[0] == "ge" else (x > 0):
                gone += (b,)
            else:
                return None
    return gone


def power(p, e):
    """p ** e for a rational exponent."""
    e = Fraction(e)
    if e == 0:
        return num(1)
    if e == 1:
        return p
    if not p.terms:
        if e < 0:
            return lift(mk("atom", ("inf",)))
        return p
    if len(p.terms) == 1:
        m, c = p.terms[0]
        if e.denominator == 1:
            n = int(e)
            cc = C1
            base = c if n > 0 else cinv(c)
            for _ in range(min(abs(n), 400)):
                cc = cmul(cc, base)
            res = []
            for b, x in m:
                if b.op == "br":
                    if n < 0:       # 1/[c]: only meaningful where c holds
                        res.append((b, ONE))
                    else:
                        res.append((b, ONE))
                else:
                    res.append((b, x * n))
            out = mono((), cc)
            for b, x in res:
                out = out * base_pow(b, x)
            return out
        # fractional power: exp() factors and positive rationals with exact
        # roots split off
        out = num(1)
        rest = []
        for b, x in m:
            if b.op in ("exp",) or b.pos:
                out = out * base_pow(b, x * e)
            elif b.op == "br":
                out = out * lift(b)
            else:
                rest.append((b, x))
        coef = mono((), c)
        if c[1] == 0 and c[0] > 0:
            r = root(c[0], e)
            if r is not None:
                out = out * num(r)
                coef = num(1)
            else:
                out = out * base_pow(mk("pw", (coef,), True, pos=True), e)
                coef = num(1)
        rp = mono(tuple(rest)) * coef
        if rp.const == C1:
            return out
        if len(rp.terms) == 1 and rp.terms[0][1] == C1:
            mm = rp.terms[0][0]
            if len(mm) == 1:
                b, x = mm[0]
                # (z^x)^e = z^(x e) only safe for fractional x already
                if x.denominator != 1 or abs(x) == 1:
                    return out * base_pow(b, x * e)
        return out * base_pow(mk("pw", (rp,), rp.real), e)
    if e.denominator == 1 and 0 < e <= 6:
        out = p
        try:
            for _ in range(int(e) - 1):
                out = out * p
            return out
        except TooBig:
            if len(p.terms) ** 2 <= 8 * MAXTERMS:
                raise
            return lift(mk("fn", ("pow", p, num(e)), p.real))
    # opaque sum: make the leading coefficient 1
    lead = p.terms[0][1]
    if e.denominator == 1:
        q = p * mono((), cinv(lead))
        k = power(mono((), lead), e)
        return k * base_pow(mk("pw", (q,), q.real), e)
    if lead[1] == 0 and lead[0] > 0:
        q = p * mono((), cinv(lead))
        return power(mono((), lead), e) * base_pow(mk("pw", (q,), q.real), e)
    return base_pow(mk("pw", (p,), p.real), e)


def base_pow(b, e):
    if e == 0:
        return num(1)
    if b.op == "pw" and e.denominator == 1 and e > 0:
        return power(b.args[0], e)
    return mono(((b, Fraction(e)),))


def root(fr, e):
    """fr**e exactly if rational, else None (small roots only)."""
    n, d = e.numerator, e.denominator
    if d > 8 or abs(n) > 64:
        return None

    def iroot(k):
        r = round(k ** (1.0 / d))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x ** d == k:
                return x
        return None
    if fr.numerator.bit_length() > 200 or fr.denominator.bit_length() > 200:
        return None
    a, b = iroot(fr.numerator), iroot(fr.denominator)
    if a is None or b is None or b == 0:
        return None
    return Fraction(a, b) ** n


# --------------------------------------------------------------------------
def atom(name, real=True, integer=False, pos=False):
    return lift(mk("atom", (name,), real, integer, pos))


_fresh = itertools.count()


def bvar(integer=True, hint="i"):
    return lift(mk("bv", (hint, next(_fresh)), True, integer))


I = mono((), (ZERO, ONE))
PI = atom("pi", pos=True)


def as_base(p):
    """The single base term of p (coef 1, exponent 1) or None."""
    if len(p.terms) == 1:
        m, c = p.terms[0]
        if c == C1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


_conj_memo = {}


def conj(p):
    if p.real:
        return p
    r = _conj_memo.get(p)
    if r is None:
        ts = []
        for m, c in p.terms:
            t = mono((), (c[0], -c[1]))
            for b, e in m:
                t = t * conj_base(b, e)
            ts.append(t)
        r = total(ts)
        _conj_memo[p] = r
    return r


def conj_base(b, e):
    if b.real:
        return base_pow(b, e)
    if b.op == "conj":
        return base_pow(b.args[0], e)
    if b.op == "expi":
        # exp(i m) with m real
        if b.args[0].real:
            return base_pow(b, -e)
        return base_pow(_expi(conj(b.args[0])), -e)
    if b.op == "exp":
        return power(exp(conj(b.args[0])), e)
    if b.op == "pw":
        return power(conj(b.args[0]), e)
    if b.op == "sum":
        return power(conj_sum(b), e)
    if b.op == "let":
        return power(let(conj(b.args[0])), e)
    if b.op == "fn" and b.args[0] in _CONJ_LINEAR:
        return power(fn(b.args[0], *[conj(a) if isinstance(a, P) else a
                                     for a in b.args[1:]]), e)
    return base_pow(mk("conj", (b,), False), e)


_CONJ_LINEAR = set()


def _expi(m):
    return mk("expi", (m,), False)


def re(p):
    if p.real:
        return p
    return (p + conj(p)) * num(Fraction(1, 2))


def im(p):
    if p.real:
        return num(0)
    return (p - conj(p)) * mono((), (ZERO, Fraction(-1, 2)))


def absv(p):
    r = p.rational
    if r is not None:
        return num(abs(r))
    if len(p.terms) == 1:
        m, c = p.terms[0]
        if all(b.pos or b.op == "expi" for b, _ in m) and c[1] == 0:
            out = num(abs(c[0]))
            for b, e in m:
                if b.op != "expi":
                    out = out * base_pow(b, e)
            return out
    if len(p.terms) > 12:
        return fn("abs", p)
    return power(p * conj(p), Fraction(1, 2))


def exp(p):
    out = num(1)
    for m, c in p.terms:
        mm = mono(m)
        # exp(a * ln(x)) = x**a
        lns = [b for b, e in m if b.op == "ln" and e == 1]
        if len(m) == 1 and lns and c[1] == 0:
            out = out * power(lns[0].args[0], c[0])
            continue
        if c[0] != 0:
            out = out * base_pow(mk("exp", (mm,), mm.real, pos=mm.real), c[0])
        if c[1] != 0:
            out = out * base_pow(_expi(mm), c[1])
    return out


def _lnnum(fr):
    """ln of a positive rational through prime factors"""
    out = num(0)
    for k, s in ((fr.numerator, 1), (fr.denominator, -1)):
        n, f = k, 2
        while n > 1 and f * f <= n and f < 2000:
            while n % f == 0:
                out = out + lift(mk("ln", (num(f),))) * s
                n //= f
            f += 1
        if n > 1:
            out = out + lift(mk("ln", (num(n),))) * s
    return out


def ln(p):
    if len(p.terms) == 1:
        m, c = p.terms[0]
        if c[1] == 0 and c[0] > 0:
            out = _lnnum(c[0])
            for b, e in m:
                if b.op == "exp":
                    out = out + b.args[0] * num(e)
                elif b.op == "expi":
                    out = out + I * b.args[0] * num(e)
                elif b.op == "pw" and b.args[0].rational is not None:
                    out = out + _lnnum(b.args[0].rational) * num(e)
                else:
                    out = out + lift(mk("ln", (lift(b),), b.real)) * num(e)
            return out
    return lift(mk("ln", (p,), p.real))


def powgen(a, b):
    r = b.rational
    if r is not None:
        if len(a.terms) > 1 and r.denominator == 1 and r > 6:
            q = base_pow(mk("pw", (a,), a.real), r - 0) \
                if False else mono(((mk("fn", ("pow", a, b), a.real), ONE),))
            return q
        return power(a, r)
    ra = a.rational
    if ra is not None and ra > 0:
        return exp(b * ln(a))
    if ra == -1 and b.integer:
        # (-1)**n for integer n
        return lift(mk("fn", ("sgnpow", _mod2(b)), True, True))
    base = as_base(a)
    if base is not None and base.pos:
        return exp(b * ln(a))
    return lift(mk("fn", ("pow", a, b), a.real and b.real,
                   a.integer and b.integer))


def _mod2(b):
    """drop even integer multiples; sign does not matter for parity"""
    d = {}
    for m, c in b.terms:
        k = c[0] % 2
        if k:
            d[m] = (ONE, ZERO)
    return mkp(d)


def fn(name, *args, **kw):
    """Uninterpreted function of canonical arguments."""
    real = kw.get("real", True)
    integer = kw.get("integer", False)
    args = tuple(lift(a) if isinstance(a, (int, float, complex, Fraction))
                 and not isinstance(a, bool) else a for a in args)
    if name == "roundn" or name == "round":
        r = _rounded(args)
        if r is not None:
            return r
    if name in _ODD and len(args) >= 1:
        s = _sign(args[0])
        if s < 0:
            return -fn(name, *((-args[0],) + args[1:]), **kw)
    if name in _EVEN and _sign(args[0]) < 0:
        return fn(name, *((-args[0],) + args[1:]), **kw)
    return lift(mk("fn", (name,) + args, real, integer))


_ODD = {"sin", "tan", "tanh", "sinh", "arcsin", "arctan", "roundn", "round"}


def _rounded(args):
    """rounding of constants (ties depend on the binary representation and
    are left alone) and of rounded values"""
    n = args[1].rational if len(args) > 1 else ZERO
    if n is None or n.denominator != 1 or not isinstance(args[0], P):
        return None
    r = args[0].rational
    if r is not None:
        x = r * Fraction(10) ** int(n)
        f = Fraction(x.numerator // x.denominator)
        if x - f == Fraction(1, 2):
            return None
        if x - f > Fraction(1, 2):
            f += 1
        return num(f / Fraction(10) ** int(n))
    t = as_base(args[0])
    if t is not None and t.op == "fn" and t.args[0] == "roundn":
        k = t.args[2].rational
        if k is not None and k <= n:
            return args[0]
    if n >= 0 and args[0].integer:
        return args[0]
    return None


_EVEN = {"cos", "cosh", "abs"}


def _sign(p):
    if not p.terms:
        return 1
    c = p.terms[0][1]
    return -1 if (c[0] < 0 or (c[0] == 0 and c[1] < 0)) else 1


# --------------------------------------------------------------------------
# conditions: polynomials in brackets with value 0/1
TRUE, FALSE = num(1), num(0)


def br(t):
    return lift(t)


#: base term -> (lowest, highest) value, declared before its first use
BOUNDS = {}


def bound(p, lo, hi=None):
    BOUNDS[as_base(p)] = (Fraction(lo), None if hi is None else Fraction(hi))


def _fl(x):
    return None if x is None else Fraction(x.numerator // x.denominator)


def _ce(x):
    return None if x is None else -_fl(-x)


def _tr(x):
    return None if x is None else _fl(x) if x >= 0 else _ce(x)


_ROUNDING = {"floor": _fl, "ceil": _ce, "int": _tr,
             "len_ceil": lambda x: ZERO if x is None or x < 0 else _ce(x)}


def bounds(p):
    """(lo, hi) of a linear polynomial over terms with declared bounds"""
    lo = hi = ZERO
    for m, c in p.terms:
        if c[1] != 0:
            return None, None
        c = c[0]
        if m == ():
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in BOUNDS:
            a, b = BOUNDS[m[0][0]]
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fn" and \
                m[0][0].args[0] in _ROUNDING:
            f = _ROUNDING[m[0][0].args[0]]
            a, b = bounds(m[0][0].args[1])
            a = f(a)
            b = None if b is None else f(b)
            if a is None and b is None:
                return None, None
        elif all(x.pos and e > 0 for x, e in m):
            a, b = ZERO, None
        else:
            return None, None
        if c < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or b is None else hi + c * b
    return lo, hi


def ge0(p):
    """[p >= 0] for a real p"""
    r = p.rational
    if r is not None:
        return TRUE if r >= 0 else FALSE
    lo, hi = bounds(p)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    if p.integer:
        # divide by the gcd of the coefficients, round the constant down
        g = 0
        const = ZERO
        for m, c in p.terms:
            if m == ():
                const = c[0]
            else:
                from math import gcd
                g = gcd(g, int(c[0]))
        if g > 1:
            d = {m: (c[0] / g, ZERO) for m, c in p.terms if m != ()}
            k = const / g
            k = Fraction(k.numerator // k.denominator)
            if k:
                d[()] = (k, ZERO)
            p = mkp(d)
        # canonical orientation: [p>=0] = 1 - [-p-1 >= 0]
        return lift(mk("br", ("ge", p), True, True, True))
    # real: scale so that the leading coefficient is +-1
    p = _scale(p)
    if _sign(p) < 0:
        # [p >= 0] = 1 - [-p > 0]
        return num(1) - lift(mk("br", ("gt", -p), True, True, True))
    return lift(mk("br", ("ge", p), True, True, True))


def gt0(p):
    r = p.rational
    if r is not None:
        return TRUE if r > 0 else FALSE
    if p.integer:
        return ge0(p - num(1))
    lo, hi = bounds(p)
    if lo is not None and lo > 0:
        return TRUE
    if hi is not None and hi <= 0:
        return FALSE
    p = _scale(p)
    if _sign(p) < 0:
        return num(1) - lift(mk("br", ("ge", -p), True, True, True))
    return lift(mk("br", ("gt", p), True, True, True))


def _scale(p):
    best = None
    for m, c in p.terms:
        if m != ():
            best = abs(c[0])
            break
    if best and best != 1:
        p = p * num(1 / best)
    return p


def eq0(p):
    r = p.const
    if r is not None:
        return TRUE if r == (ZERO, ZERO) else FALSE
    lo, hi = bounds(p)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return FALSE
    lead = p.terms[0][1] if p.terms[0][0] != () else p.terms[-1][1]
    p = p * mono((), cinv(lead))
    return lift(mk("br", ("eq", p), True, True, True))


def cond_fn(name, *args):
    return lift(mk("br", ("fn", name) + args, True, True, True))


def lnot(c):
    return num(1) - c


def land(a, b):
    return a * b


def lor(a, b):
    return a + b - a * b


def phi(c, a, b):
    if a is b:
        return a
    k = c.rational
    if k is not None:
        return a if k else b
    return let(b + c * (a - b))


#: polynomials with more summands become an atom (0: never)
LET = [0]


def let(p):
    if not LET[0] or len(p.terms) <= LET[0]:
        return p
    return lift(mk("let", (p,), p.real, False, False))


# --------------------------------------------------------------------------
# substitution
def subst(x, mp):
    """Replace base terms (usually bound variables) by polynomials."""
    keys = frozenset(mp)
    memo = {}
    only_bv = all(k.op in INDEX for k in keys)
    # binders whose bodies receive other binders are opened first
    crowded = any(binders(lift(v)) for v in mp.values())

    def sp(p):
        if only_bv and not (p._fv & keys):
            return p
        r = memo.get(p)
        if r is None:
            ts = []
            for m, c in p.terms:
                t = mono((), c)
                for b, e in m:
                    nb = st(b)
                    if isinstance(nb, T):
                        t = t * base_pow(nb, e)
                    else:
                        t = t * power(nb, e)
                ts.append(t)
            r = total(ts)
            memo[p] = r
        return r

    def sarg(a):
        if isinstance(a, P):
            return sp(a)
        if isinstance(a, T):
            q = st(a)
            if isinstance(q, P):
                b = as_base(q)
                return b if b is not None else q
            return q
        if isinstance(a, tuple):
            return tuple(sarg(z) for z in a)
        return a

    def st(b):
        if b in mp:
            return lift(mp[b])
        if only_bv and not (b._fv & keys):
            return b
        r = memo.get(b)
        if r is not None:
            return r
        if not b.args:
            return b
        r = None
        if b.op in ("sum", "lam"):
            body = b.args[2]
            new = None if crowded else sp(body)
            if new is body:
                r = b
            elif new is not None and binders(new, b.op) <= b.args[1]:
                r = rebuild(b, (b.args[0], b.args[1], new))
            else:
                vs, body = opened(b)
                new = sp(body)
                r = b if new is body else closed(b.op, vs, new)
        else:
            args = tuple(sarg(a) for a in b.args)
            r = b if args == b.args else rebuild(b, args)
        memo[b] = r
        return r

    if isinstance(x, P):
        return sp(x)
    if isinstance(x, T):
        return st(x)
    return sarg(x)


def rebuild(b, args):
    op = b.op
    if op == "conj":
        a = args[0]
        return conj(lift(a))
    if op == "exp":
        return exp(args[0])
    if op == "expi":
        return exp(I * args[0])
    if op == "ln":
        return ln(args[0])
    if op == "pw":
        return mk("pw", args, args[0].real) if len(args[0].terms) > 1 \
            else args[0]
    if op == "br":
        if args[0] == "ge":
            return ge0(args[1])
        if args[0] == "gt":
            return gt0(args[1])
        if args[0] == "eq":
            return eq0(args[1])
        return mk("br", args, True, True, True)
    if op == "fn":
        nm = args[0]
        if nm == "sgnpow":
            return powgen(num(-1), args[1])
        if nm == "pow":
            return powgen(args[1], args[2])
        if nm in REBUILD:
            r = REBUILD[nm](*args[1:])
            if r is not None:
                return r
        return fn(nm, *args[1:], real=b.real, integer=b.integer)
    if op == "sum":
        return closed(op, *opened(args, op))
    if op == "lam":
        if binders(args[2], "lam") == args[1]:
            return mk("lam", args, args[2].real)
        return closed(op, *opened(args, op))
    if op == "let":
        return let(args[0])
    return mk(op, args, b.real, b.integer, b.pos)


def mod(x, y):
    """remainder with the sign of y"""
    r, c = x.rational, y.rational
    if r is not None and c:
        return num(r - c * math.floor(r / c))
    if c == 1 and x.integer:
        return num(0)
    if c and c == int(c) and x.integer and all(
            k[1] == 0 and k[0].denominator == 1 for m, k in x.terms):
        # multiples of y in whole summands do not count
        z = total([mono(m, (k[0] % c if all(
            b.integer and not isinstance(e, P) and e > 0 and e == int(e)
            for b, e in m) else k[0], k[1])) for m, k in x.terms])
        if z is not x:
            return mod(z, y)
    return fn("mod", x, y, integer=x.integer and y.integer)


def divides(k, x):
    """[the whole number x is a multiple of k]"""
    return eq0(mod(x, num(k)))


REBUILD = {"mod": mod}


# --------------------------------------------------------------------------
# sums over all integers (bounds are guards); binder is ('bv') closed by db
def _db(depth, k):
    return mk("db", (depth, k), True, True)


def opened(t, op=None):
    """fresh variables for a binder, and its body with them"""
    op, (n, d, body) = (t.op, t.args) if op is None else (op, t)
    vs = [as_base(bvar()) for _ in range(n)]
    var = _db if op == "sum" else _ldb
    return vs, subst(body, {var(d, i): lift(v) for i, v in enumerate(vs)})


def closed(op, vs, body):
    if op == "lam":
        return lam_node(vs, body)
    r = num(0)
    for m, c in body.terms:
        mm = mono(m)
        used = [v for v in vs if v in mm._fv]
        r = r + mono((), c) * lift(sum_node(tuple(used), mm))
    return r


_NEST = {}


def binders(x, op=None):
    """how deep sums (lambdas) are nested in x, indices of other ones left
    aside"""
    if op is None:
        return max(binders(x, "sum"), binders(x, "lam"))
    key = (op, x)
    r = _NEST.get(key)
    if r is not None:
        return r
    r = 0
    if isinstance(x, P):
        for m, _ in x.terms:
            for b, _e in m:
                r = max(r, binders(b, op))
    else:
        for a in x.args if isinstance(x, T) else x:
            if isinstance(a, (P, T, tuple)):
                r = max(r, binders(a, op))
        if isinstance(x, T) and x.op == op:
            r = max(r, x.args[1] + 1)
    _NEST[key] = r
    return r


def sum_over(var, body):
    """sum over integer variable ``var`` (a T bv) of guarded body"""
    out = num(0)
    for m, c in body.terms:
        inside, outside = [], []
        for b, e in m:
            (inside if var in b._fv else outside).append((b, e))
        t = mono((), c)
        for b, e in outside:
            t = t * base_pow(b, e)
        core = mono(tuple(inside))
        out = out + t * _sum1(var, core)
    return out


def _sum1(var, core):
    # flatten nested sums: core = inner * sum_{vars} body
    over = [var]
    factors = num(1)
    if len(core.terms) != 1:
        return lift(sum_node((var,), core))
    for b, e in core.terms[0][0]:
        if b.op == "sum" and e == 1:
            vs, body = opened(b)
            over += vs
            factors = factors * body
        else:
            factors = factors * base_pow(b, e)
    if len(factors.terms) == 1:
        return lift(sum_node(tuple(over), factors))
    out = num(0)
    for m, c in factors.terms:
        out = out + mono((), c) * lift(sum_node(tuple(over), mono(m)))
    return out


def sum_node(vs, body):
    """Canonical closed sum over the variables vs."""
    vs = simplify_points(vs, body)
    if isinstance(vs, P):
        return vs
    vs, body = vs
    best = None
    n = len(vs)
    d = binders(body, "sum")
    perms = itertools.permutations(range(n)) if n <= 4 else [range(n)]
    for pm in perms:
        cand = subst(body, {vs[i]: lift(_db(d, k))
                            for k, i in enumerate(pm)})
        key = cand.id
        if best is None or key < best[0]:
            best = (key, cand)
    return mk("sum", (n, d, best[1]), body.real)


def simplify_points(vs, body):
    """Eliminate a binder pinned by [var == e]."""
    vs = list(vs)
    changed = True
    while changed:
        changed = False
        if len(body.terms) != 1:
            break
        for b, e in body.terms[0][0]:
            if b.op == "br" and b.args[0] == "eq":
                p = b.args[1]
                for v in vs:
                    c = coef_of(p, v)
                    if c in (1, -1):
                        sol = (lift(v) * num(c) - p) * num(c)
                        if v in sol._fv:
                            continue
                        body = subst(body, {v: sol})
                        vs.remove(v)
                        changed = True
                        break
                if changed:
                    break
    if not vs:
        return body
    return vs, body


def coef_of(p, v):
    for m, c in p.terms:
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1 and c[1] == 0:
            return c[0]
    return 0


def conj_sum(t):
    vs, body = opened(t)
    return closed("sum", vs, conj(body))


# --------------------------------------------------------------------------
# lambdas: array values embedded in terms
def _ldb(depth, k):
    return mk("ldb", (depth, k), True, True)


def lam(rank, f):
    """Reify an index function as a canonical closed term."""
    vs = [as_base(bvar()) for _ in range(rank)]
    body = f(tuple(lift(v) for v in vs))
    if not isinstance(body, P):
        raise TypeError("lam body")
    return lam_node(vs, body)


def lam_node(vs, body):
    rank = len(vs)
    # eta: lam i. sel(A, i) = A
    b = as_base(body)
    if b is not None and b.op == "sel" and len(b.args[1]) == rank and all(
            as_base(ix) is v for v, ix in zip(vs, b.args[1])) \
            and not b.args[0]._fv & set(vs):
        return b.args[0]
    d = binders(body, "lam")
    return mk("lam", (rank, d, subst(body, {
        v: lift(_ldb(d, i)) for i, v in enumerate(vs)})), body.real)


def contains(x, targets):
    targets = set(targets)
    seen = set()
    stack = [x]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, P):
            for m, _ in x.terms:
                for b, _e in m:
                    stack.append(b)
        elif isinstance(x, T):
            if x in targets:
                return True
            for a in x.args:
                if isinstance(a, (P, T)):
                    stack.append(a)
                elif isinstance(a, tuple):
                    stack.extend(z for z in a if isinstance(z, (P, T)))
    return False


def sel(arr, idx):
    """element of an opaque array term"""
    if arr.op == "lam":
        rank, d, body = arr.args
        return subst(body, {_ldb(d, i): ix for i, ix in enumerate(idx)})
    return lift(mk("sel", (arr, tuple(idx)), arr.real))


def arr(name, real=True):
    return mk("arr", (name,), real)


def afn(name, *args, **kw):
    """opaque array-valued function"""
    return mk("afn", (name,) + args, kw.get("real", True))


# --------------------------------------------------------------------------
# equality up to common denominators
def clear_denoms(p):
    for _ in range(12):
        dens = {}
        for m, _c in p.terms:
            for b, e in m:
                if b.op == "pw" and e <= -1:
                    n = -(e.numerator // e.denominator) \
                        if e.denominator == 1 else int(-e)
                    n = max(n, 1)
                    dens[b] = max(dens.get(b, 0), n)
        if not dens:
            return p
        b = next(iter(dens))
        n = dens[b]
        out = num(0)
        for m, c in p.terms:
            d = dict(m)
            e = d.pop(b, ZERO) + n
            t = mono(tuple(sorted(d.items(), key=lambda be: be[0].id)), c)
            if e:
                t = t * base_pow(b, e)
            out = out + t
        p = out
    return p


def equal(a, b):
    if a is b:
        return True
    d = a - b
    if not d.terms:
        return True
    d = clear_denoms(d)
    return not d.terms


def subterms(x):
    seen = set()
    stack = [x]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, P):
            for m, _ in x.terms:
                for b, _e in m:
                    stack.append(b)
        elif isinstance(x, T):
            yield x
            for a in x.args:
                if isinstance(a, (P, T)):
                    stack.append(a)
                elif isinstance(a, tuple):
                    stack.extend(z for z in a if isinstance(z, (P, T)))


# --------------------------------------------------------------------------
def _c(c):
    if c[1] == 0:
        return str(c[0])
    if c[0] == 0:
        return "%sj" % c[1]
    return "(%s+%sj)" % c


_DEPTH = [0]


def show(p, limit=600):
    if not p.terms:
        return "0"
    if _DEPTH[0] > 7:
        return ".."
    _DEPTH[0] += 1
    try:
        return _show(p, limit)
    finally:
        _DEPTH[0] -= 1


def _show(p, limit):
    out = []
    size = 0
    for m, c in p.terms:
        if size > limit:
            break
        fs = []
        for b, e in m:
            fs.append(show_t(b) if e == 1 else "%s^%s" % (show_t(b), e))
        s = "*".join(fs)
        if c == C1 and fs:
            out.append(s)
        elif c == CM1 and fs:
            out.append("-" + s)
        else:
            out.append(_c(c) + ("*" + s if fs else ""))
        size += len(out[-1])
    s = " + ".join(out)
    return s if len(s) <= limit else s[:limit] + "..."


def show_t(t):
    if t.op == "atom":
        return t.args[0]
    if t.op == "arr":
        return t.args[0]
    if t.op in ("bv",):
        return "%s%d" % t.args
    if t.op == "db":
        return "#%d.%d" % t.args
    if t.op == "ldb":
        return "$%d.%d" % t.args
    if t.op == "sel":
        return "%s[%s]" % (show_t(t.args[0]),
                           ",".join(show(i) for i in t.args[1]))
    if t.op == "pw":
        return "(%s)" % show(t.args[0])
    if t.op == "conj":
        return "conj(%s)" % show_t(t.args[0])
    if t.op == "br":
        return "[%s]" % " ".join(
            show(a) if isinstance(a, P) else str(a) for a in t.args)
    if t.op == "fn":
        return "%s(%s)" % (t.args[0], ", ".join(
            show(a) if isinstance(a, P) else repr(a) for a in t.args[1:]))
    if t.op == "sum":
        return "SUM%d@%d{%s}" % (t.args[0], t.args[1], show(t.args[2]))
    if t.op == "lam":
        return "(\\%d@%d. %s)" % (t.args[0], t.args[1], show(t.args[2]))
    return "%s(%s)" % (t.op, ", ".join(
        show(a) if isinstance(a, P) else str(a) for a in t.args))
