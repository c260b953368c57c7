"""String patterns: the layout of a string built from literals and values.

A pattern is a tuple of parts ("L", text) | ("H", what, spec) where ``what``
identifies the embedded value (its value number or the name of the input it
came from) and ``spec`` the conversion applied to it.
"""
import re

from . import terms as tm
from .values import V, EMPTY, const, ck, unk

STR = frozenset(["str"])


def norm(parts):
    out = []
    for p in parts:
        if p[0] == "L":
            if not p[1]:
                continue
            if out and out[-1][0] == "L":
                out[-1] = ("L", out[-1][1] + p[1])
                continue
        out.append(p)
    return tuple(out)


def pattern(v):
    """pattern of a string-like value or None"""
    if v.x is not None:
        return v.x if v.x[0] != "ALT" else None
    if len(v.c) == 1 and not (v.t or v.r or v.f):
        k = next(iter(v.c))
        if k[0] == "str":
            return norm([("L", k[1])])
        if k[0] in ("int",):
            return None
    return None


def patterns(v):
    """all patterns a path value may have"""
    if v.x is not None and v.x[0] == "ALT":
        return [norm(p) for p in v.x[1]]
    p = pattern(v)
    return [p] if p is not None else []


def alternatives(v):
    """the value as a list of values with one pattern each"""
    if v.x is None or v.x[0] != "ALT":
        return [v]
    return [made(p, v.d) for p in v.x[1]]


def hole(it, v, spec, st):
    p = pattern(v)
    if p is not None and spec in ("", "s"):
        return list(p)
    if len(v.c) == 1 and not (v.t or v.r or v.f):
        k = next(iter(v.c))
        try:
            return [("L", format(k[1], spec))]
        except ValueError:
            pass
        except TypeError:
            if k[1] is None and spec not in ("r", "s", "a"):
                it.event("noneformat", it.node_now, spec=spec)
                it.kill(st)
    what = v.s
    if what is None:
        what = ("deps",) + tuple(sorted(map(str, it.deps(st, v))))
    return [("H", what, spec)]


def made(parts, d):
    x = norm(parts)
    if len(x) == 1 and x[0][0] == "L":
        return const(x[0][1], d)
    if not x:
        return const("", d)
    return V(t=STR, d=d, x=x)


def joined(it, e, st):
    import ast
    parts, d = [], EMPTY
    for p in e.values:
        if isinstance(p, ast.Constant):
            parts.append(("L", p.value))
            continue
        v = it.ev(p.value, st)
        d = d | it.deps(st, v)
        spec = ""
        if p.format_spec is not None:
            sv = it.ev(p.format_spec, st)
            if len(sv.c) == 1:
                spec = next(iter(sv.c))[1]
            else:
                spec = "?"
        if p.conversion not in (-1, 115):
            spec = "!" + spec
        if spec[:1] in ("?", "!"):
            parts.append(("H", v.s if v.s is not None else "?", spec))
        else:
            parts += hole(it, v, spec, st)
    return made(parts, d)


def concat(it, a, b):
    d = a.d | b.d
    if a.c and b.c and not (a.t or b.t) and len(a.c) * len(b.c) <= 16:
        return V(c=frozenset(ck(x[1] + y[1]) for x in a.c for y in b.c),
                 d=d)
    pa, pb = pattern(a), pattern(b)
    if pa is None or pb is None:
        return unk("str", d)
    return made(list(pa) + list(pb), d)


PCT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([diouxXeEfFgGcrs%])")
BRACE = re.compile(r"\{\{|\}\}|\{([^{}:!]*)(![rsa])?(?::([^{}]*))?\}")


def percent(it, a, b, st, node):
    d = a.d | it.deps(st, b)
    p = pattern(a)
    if p is None or len(p) > 1 or (p and p[0][0] != "L"):
        return unk("str", d)
    text = p[0][1] if p else ""
    args = [b]
    if len(b.r) == 1 and not (b.c or b.t):
        o = st.heap.get(next(iter(b.r)))
        if o is not None and o.kind == "tuple":
            if o.items is None:
                return unk("str", d)
            args = list(o.items)
    parts, pos, n = [], 0, 0
    for m in PCT.finditer(text):
        parts.append(("L", text[pos:m.start()]))
        pos = m.end()
        if m.group(3) == "%":
            parts.append(("L", "%"))
            continue
        if n >= len(args) or m.group(1):
            return unk("str", d)
        spec = (m.group(2) + m.group(3)) if m.group(3) != "s" or m.group(2) \
            else "s"
        parts += hole(it, args[n], "" if spec == "s" else spec, st)
        n += 1
    parts.append(("L", text[pos:]))
    return made(parts, d)


def fmt(it, st, recv, args, kwargs):
    d = recv.d
    for v in list(args) + list(kwargs.values()):
        d = d | it.deps(st, v)
    p = pattern(recv)
    if p is None or len(p) > 1 or (p and p[0][0] != "L"):
        return unk("str", d)
    text = p[0][1] if p else ""
    parts, pos, auto = [], 0, 0
    for m in BRACE.finditer(text):
        parts.append(("L", text[pos:m.start()]))
        pos = m.end()
        if m.group(0) in ("{{", "}}"):
            parts.append(("L", m.group(0)[0]))
            continue
        nm = m.group(1)
        if nm == "":
            nm, auto = str(auto), auto + 1
        if nm.isdigit() and int(nm) < len(args):
            v = args[int(nm)]
        elif nm in kwargs:
            v = kwargs[nm]
        else:
            return unk("str", d)
        if m.group(2) in ("!r", "!a"):
            parts.append(("H", v.s if v.s is not None else "?", "!r"))
        else:
            parts += hole(it, v, m.group(3) or "", st)
    parts.append(("L", text[pos:]))
    return made(parts, d)


def contains(x, sub):
    for p in x:
        if p[0] == "L" and isinstance(sub, str) and sub in p[1]:
            return True
    return None


def index(it, v, idx, st):
    d = v.d
    if isinstance(idx, V):
        d = d | it.deps(st, idx)
    return unk("str", d)


def line_get(it, st, o, idx, node):
    return None


def file_line(it, o, d):
    return unk("str", d | o.deps)


def root(v):
    """the leading part of a path string"""
    p = pattern(v)
    if not p:
        return None
    return p[0]
