"""Models of external callables (built-ins, numpy, scipy, matplotlib, os)."""
from fractions import Fraction
import itertools

from . import terms as tm
from . import interp as ip
from . import strpat
from .values import (V, O, BOT, NONE, UNB, UNBOUND, TRUEV, FALSEV, EMPTY,
                     const, ck, unk, scalar, join, joinall)
from . import models as md
from .models import (ELEM1, ELEM2, REDUCE, VIEWFUN, RETARR, RANK1, NUMTAGS,
                     FRESHSTR, View)

EXC = ("Error", "Exception", "Warning", "Exit", "Interrupt", "StopIteration")
PROCSTATE = {
    "numpy.seterr", "numpy.seterrcall", "numpy.seterrobj",
    "numpy.set_printoptions", "numpy.random.seed", "random.seed",
    "numpy.random.set_state", "random.setstate", "numpy.setbufsize",
    "warnings.filterwarnings", "warnings.simplefilter",
    "warnings.resetwarnings", "os.chdir", "os.putenv", "os.unsetenv",
    "os.umask", "locale.setlocale", "sys.setrecursionlimit",
    "sys.settrace", "plt.rc", "plt.rcdefaults", "plt.ion", "plt.ioff",
    "plt.style.use", "plt.switch_backend", "matplotlib.use",
    "matplotlib.rc", "plt.set_cmap", "signal.signal", "gc.disable",
    "time.tzset", "logging.disable", "logging.basicConfig",
    "decimal.setcontext", "socket.setdefaulttimeout", "atexit.register",
    "threading.setprofile", "numpy.set_string_function",
    "numpy.set_numeric_ops", "mpmath.mp.dps", "os.nice",
}
GLOBAL_RANDOM = ("numpy.random.", "random.")


def alld(m, st, args, kwargs):
    d = EMPTY
    for a in list(list.__iter__(args) if isinstance(args, list)
                  else args) + list(kwargs.values()):
        d = d | m.it.deps(st, a)
    return d


def canon(name):
    if name.startswith("matplotlib.pyplot."):
        return "plt." + name[len("matplotlib.pyplot."):]
    if name.startswith("matplotlib.pylab.") or name.startswith("pylab."):
        return "plt." + name.rsplit(".", 1)[1]
    return name


def call(m, st, name, args, kwargs, node, star=None, kwrest=None):
    it = m.it
    name = canon(name)
    if star is not None:
        args = list(args) + [star]
    if kwrest is not None:
        kwargs = dict(kwargs)
        kwargs["**"] = kwrest
    pkg, _, fn = name.partition(".")
    if name in PROCSTATE:
        it.event("procstate", node, name=name)
        return unk("any")
    if name.startswith(GLOBAL_RANDOM) and fn.split(".")[-1] not in (
            "default_rng", "RandomState", "Generator", "Random"):
        it.event("random", node, name=name)
        return unk("any", alld(m, st, args, kwargs) | {"random"})
    if name.startswith(GLOBAL_RANDOM) and not args and not kwargs:
        it.event("random", node, name=name)
    if pkg == "builtins":
        h = B.get(fn)
        if h is not None:
            return h(m, st, args, kwargs, node)
        if fn.endswith(EXC):
            return it.new(st, O("ext", cls=name, items=tuple(args),
                                deps=alld(m, st, args, kwargs)), node, "exc")
        return default(m, st, name, args, kwargs, node)
    if pkg == "numpy":
        return numpy_call(m, st, fn, args, kwargs, node)
    if pkg == "math" or pkg == "cmath":
        f = {"fabs": "abs", "log": "ln"}.get(fn, fn)
        if f in ELEM1 or f in ("ln",):
            return elem1(m, st, ELEM1.get(f, f), args, kwargs, node)
        if fn == "fsum":
            return numpy_call(m, st, "sum", args, kwargs, node)
        if fn == "isclose":
            return unk("bool", alld(m, st, args, kwargs))
        if fn == "pow":
            return m.binop("Pow", args[0], args[1], st, node)
        return unk("num", alld(m, st, args, kwargs))
    if pkg == "scipy":
        return scipy_call(m, st, fn, args, kwargs, node)
    if pkg == "plt" or pkg == "matplotlib":
        return plt_call(m, st, name, args, kwargs, node)
    if name.startswith(("os.getpid", "os.urandom", "uuid.", "secrets.", "socket.",
                        "platform.", "locale.", "getpass.", "builtins.id",
                        "builtins.hash", "os.path.expanduser", "os.cpu",
                        "os.times", "threading.", "tempfile.")):
        if name.startswith(("os.urandom", "uuid.", "secrets.")):
            it.event("random", node, name=name)
        return unk("any", alld(m, st, args, kwargs) | {"env"})
    if pkg == "os" or pkg == "shutil":
        return os_call(m, st, name, args, kwargs, node)
    if pkg == "copy":
        if fn == "deepcopy":
            return deepcopy(m, st, args[0], node, {})
        return shallow(m, st, args[0], node)
    if name == "collections.namedtuple":
        return namedtuple_(m, st, args, kwargs, node)
    if name in ("collections.OrderedDict",):
        return B["dict"](m, st, args, kwargs, node)
    if name == "functools.partial":
        return V(f=frozenset([("partial", args[0], tuple(args[1:]),
                               tuple(sorted(kwargs.items())))]))
    if name == "functools.reduce":
        return default(m, st, name, args, kwargs, node)
    if pkg == "numba":
        if args and args[0].f and any(isinstance(f, ip.Closure)
                                      for f in args[0].f):
            return args[0]
        return V(f=frozenset([("ext", "numba.njit")]))
    if name == "glob.glob":
        it.event("fs", node, op="glob", mode="r",
                 path=strpat.pattern(args[0]),
                 paths=strpat.patterns(args[0]),
                 d=tuple(sorted(map(str, it.deps(st, args[0])))))
        return it.new(st, O("list", items=None, rest=V(
            t=frozenset(["str"]), d=it.deps(st, args[0]) | {"fs"})), node,
            "glob")
    if name.startswith("sys.std"):
        meth = fn.split(".")[-1]
        if meth == "write":
            it.event("print", node, name=name, text=print_text(it, args, st),
                     d=tuple(sorted(map(str, alld(m, st, args, kwargs)))))
        return NONE
    if name == "sys.exit":
        it.event("procstate", node, name=name)
        it.kill(st)
        return BOT
    if pkg == "warnings":
        if fn == "warn":
            it.event("warn", node)
            return NONE
        return it.new(st, O("ext", cls=name), node, "w")
    if pkg == "logging":
        it.event("log", node, name=name)
        return it.new(st, O("ext", cls=name), node, "lg")
    if pkg in ("time", "timeit", "datetime"):
        return unk("float", frozenset(["clock"]))
    if pkg == "itertools":
        rep = const(1)
        if fn == "product" and (set(kwargs) <= {"repeat"}):
            rep = kwargs.get("repeat", rep)
        else:
            rep = unk("any")
        n = m.int_const(rep)
        if fn == "product" and n is not None and 0 <= n < 9:
            return it.new(st, O("iter", items=tuple(args) * n,
                                extra=("product",)), node, "itp")
        return default(m, st, name, args, kwargs, node)
    if pkg == "re":
        return re_call(m, st, fn, args, kwargs, node)
    if pkg == "operator":
        ops = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div",
               "pow": "Pow"}
        if fn in ops and len(args) == 2:
            return m.binop(ops[fn], args[0], args[1], st, node)
    return default(m, st, name, args, kwargs, node)


def default(m, st, name, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    # callables handed to an external function may be called by it
    for a in list(args) + list(kwargs.values()):
        if a.f and any(isinstance(f, ip.Closure) or (
                isinstance(f, tuple) and f[0] in ("bm", "partial"))
                for f in a.f):
            call_unknown(m, st, a, node)
    it.event("extdefault", node, name=name)
    return it.new(st, O("ext", cls=name, deps=d), node, "x")


def call_unknown(m, st, fv, node, args=None):
    """an external routine calls back with unknown numeric arguments"""
    it = m.it
    it.in_fix += 1
    n = None
    for f in fv.f:
        g = f
        while isinstance(g, tuple) and g[0] in ("bm", "partial"):
            g = g[1] if not isinstance(g[1], V) else next(iter(g[1].f))
        if isinstance(g, ip.Closure):
            a = g.func.node.args
            n = len(a.posonlyargs + a.args) - len(a.defaults)
            if isinstance(f, tuple) and f[0] == "bm":
                n -= 1
            if isinstance(f, tuple) and f[0] == "partial":
                n -= len(f[2])
    if args is None:
        args = [unk("num") for _ in range(max(n or 0, 0))]
    r = it.call(fv, args, {}, st, node)
    it.in_fix -= 1
    return r


# ------------------------------------------------------------- builtins
def b_print(m, st, args, kwargs, node):
    it = m.it
    if "file" in kwargs:
        v = kwargs["file"]
        files = [r for r in v.r if r in st.heap
                 and st.heap[r].kind == "file"]
        if files:
            for r in files:
                file_write(m, st, r, args, node, newline=True)
            return NONE
    it.event("print", node, name="print", text=print_text(it, args, st),
             d=tuple(sorted(map(str, alld(m, st, args, kwargs)))))
    return NONE


def print_text(it, args, st):
    """the literal text of a message ("{}" for embedded values)"""
    out = []
    for a in args:
        for p in strpat.hole(it, a, "", st):
            out.append(p[1] if p[0] == "L" else "{}")
    return "".join(out)


def b_len(m, st, args, kwargs, node):
    it = m.it
    v = args[0]
    d = it.deps(st, v)
    if len(v.r) == 1 and not (v.c or v.t or v.f):
        o = st.heap.get(next(iter(v.r)))
        if o is not None:
            if o.kind == "array":
                if o.shape and o.rank:
                    p = o.shape[0]
                    if p is not None:
                        r = p.rational
                        if r is not None and r.denominator == 1:
                            return V(c=frozenset([ck(int(r))]), d=d)
                        return unk("int", d, p)
                return unk("int", d)
            if o.kind in ("list", "tuple", "set") and o.items is not None \
                    and o.kind != "set":
                return const(len(o.items), v.d | o.deps)
            if o.kind == "dict" and o.rest is None and all(
                    UNB not in x.c for x in o.items.values()):
                return const(len(o.items), v.d | o.deps)
            if o.kind == "list" and isinstance(o.extra, tuple) and \
                    o.extra and o.extra[0] == "rep" and o.extra[1] == 1 \
                    and o.extra[2] is not None:
                return unk("int", d, o.extra[2])
            if o.kind == "list" and o.items is None and \
                    isinstance(o.extra, tuple) and o.extra and \
                    o.extra[0] in ("lam1", "lam"):
                n = o.extra[2]
                n = n[0] if o.extra[0] == "lam" else n
                if n is not None:
                    return unk("int", d, n)
            if o.kind == "inst" and isinstance(o.extra, tuple) and \
                    o.extra[0] == "fields":
                return const(len(o.extra[1]), d)
            if o.kind == "inst" and isinstance(o.cls, ip.ClassInfo):
                f = o.cls.lookup("__len__")[1]
                if f is not None:
                    return it.call(f, [v], {}, st, node)
    if v.c and not (v.t or v.r or v.f):
        out = set()
        for k in v.c:
            if k[0] == "str":
                out.add(ck(len(k[1])))
            else:
                it.event("badlen", node)
        if not out:
            it.kill(st)
            return BOT
        return V(c=frozenset(out), d=d)
    if v.t and v.t <= {"int", "float", "bool", "complex"} and not v.r \
            and not v.c:
        it.event("badlen", node)
        it.kill(st)
        return BOT
    return unk("int", d)


def b_range(m, st, args, kwargs, node):
    it = m.it
    lo, hi, step = const(0), None, const(1)
    if len(args) == 1:
        hi = args[0]
    elif len(args) >= 2:
        lo, hi = args[0], args[1]
        if len(args) > 2:
            step = args[2]
    return it.new(st, O("range", extra=(lo, hi, step)), node, "range")


def b_iter(kind):
    def f(m, st, args, kwargs, node):
        items = list(args)
        if kind == "enumerate" and len(items) < 2:
            items.append(kwargs.get("start", const(0)))
        return m.it.new(st, O("iter", items=tuple(items), extra=(kind,)),
                        node, kind)
    return f


def b_isinstance(m, st, args, kwargs, node):
    it = m.it
    v, tv = args[0], args[1]
    if v.bottom:
        return unk("bool", v.d)
    yes = m.isinstance_filter(st, v, tv, True)
    no = m.isinstance_filter(st, v, tv, False)
    d = v.d
    if m.type_names(st, tv) is None:
        return unk("bool", d)
    if yes.bottom and not no.bottom:
        return const(False, d)
    if no.bottom and not yes.bottom:
        return const(True, d)
    return unk("bool", d)


def b_num(tag, conv):
    def f(m, st, args, kwargs, node):
        it = m.it
        if not args:
            return const(conv())
        v = args[0]
        d = it.deps(st, v)
        if tag == "complex" and len(args) == 2:
            s = None
            if v.s is not None and args[1].s is not None:
                s = v.s + tm.I * args[1].s
            return unk("complex", d | it.deps(st, args[1]), s)
        if v.c and not (v.t or v.r or v.f):
            out, bad = set(), False
            for k in v.c:
                try:
                    out.add(ck(conv(k[1])))
                except Exception:
                    bad = True
            if not out:
                it.event("badconv", node)
                it.kill(st)
                return BOT
            return V(c=frozenset(out), d=d, s=v._s if tag != "int" else None)
        s = v.s
        if v.r:
            o = it.array_obj(st, v)
            s = None
            if o is not None and o.rank == 0:
                c = it.content(st, o)
                s = c(()) if c else None
        if tag == "int" and s is not None and not s.integer:
            r = s.rational
            s = tm.num(int(r)) if r is not None else \
                tm.fn("int", s, integer=True)
        if v.t <= {"str", FRESHSTR} and v.t and strpat.pattern(v) \
                is not None:
            s = strnum(strpat.pattern(v), tag)
        if v.t and v.t <= {"str", FRESHSTR}:
            it.event("strnum", node, x=v.x)
        return unk(tag, d, s)
    return f


def strnum(x, tag):
    """number read back from a written number"""
    if len(x) == 1 and x[0][0] == "H" and isinstance(x[0][1], tm.P):
        return tm.fn("reread", x[0][1], x[0][2])
    return None


def b_str(m, st, args, kwargs, node):
    if not args:
        return const("")
    v = args[0]
    d = m.it.deps(st, v)
    if v.c and not (v.t or v.r or v.f):
        return V(c=frozenset(ck(str(k[1])) for k in v.c), d=d)
    if v.t and v.t <= {"str", FRESHSTR} and not (v.r or v.f or v.c):
        return v
    return strpat.made(strpat.hole(m.it, v, "", st), d)


def b_bool(m, st, args, kwargs, node):
    if not args:
        return FALSEV
    t = m.it.truth(args[0], st)
    d = m.it.deps(st, args[0])
    if t is not None:
        return const(t, d)
    s = m.it.cond_term(args[0])
    return unk("bool", d, s)


def b_minmax(op):
    def f(m, st, args, kwargs, node):
        it = m.it
        d = alld(m, st, args, kwargs)
        if len(args) == 1:
            el, summ, dd = m.iterate(st, args[0], node)
            if m.arrish(st, args[0]):
                return reduce_(m, st, op, args, {}, node)
            if el is None:
                return unk("any" if summ.t & {"any"} or summ.r else "num",
                           d | it.deps(st, summ))
            args = el
        if not args or "key" in kwargs:
            return unk("any", d)
        out = args[0]
        for x in args[1:]:
            out = minmax2(m, st, op, out, x, d, node)
        return out.add(d)
    return f


def minmax2(m, st, op, a, b, d, node):
    s = None
    if a.s is not None and b.s is not None:
        s = (md.tm_max if op == "max" else md.tm_min)(a.s, b.s)
        dd = a.s - b.s
        k = m.it.decide(tm.ge0(dd)).rational
        if k is not None:
            s = a.s if bool(k) == (op == "max") else b.s
    if a.c and b.c and not (a.t or b.t or a.r or b.r):
        try:
            cs = frozenset(ck((max if op == "max" else min)(x[1], y[1]))
                           for x in a.c for y in b.c)
            return V(c=cs, d=d)
        except TypeError:
            return unk("any", d)
    return V(t=frozenset([m.numtag("Add", a, b)]), d=d, s=s)


def b_sum(m, st, args, kwargs, node):
    it = m.it
    v = args[0]
    if m.arrish(st, v) and len(args) == 1:
        o = it.array_obj(st, v)
        if o is not None and o.rank == 1:
            return reduce_(m, st, "sum", [v], {}, node)
        if o is not None and o.rank and o.rank > 1:
            return reduce_(m, st, "sum", [v], {"axis": const(0)}, node)
    el, summ, d = m.iterate(st, v, node)
    acc = args[1] if len(args) > 1 else kwargs.get("start", const(0))
    if el is not None:
        for x in el:
            acc = m.binop("Add", acc, x, st, node)
        return acc.add(d)
    r = m.binop("Add", acc, summ, st, node)
    o = st.heap.get(next(iter(v.r))) if len(v.r) == 1 else None
    if o is not None and isinstance(o.extra, tuple) and o.extra and \
            o.extra[0] == "lam1" and o.extra[2] is not None and \
            acc.s is not None:
        i = tm.bvar()
        b = tm.as_base(i)
        body = o.extra[1]((i,)) * tm.ge0(i) * tm.gt0(o.extra[2] - i)
        return unk("num", r.d | d, acc.s + tm.sum_over(b, body))
    return V(t=r.t | frozenset(["num"]) if not r.r else r.t, r=r.r, d=r.d
             | d | it.deps(st, summ))


def b_anyall(op):
    def f(m, st, args, kwargs, node):
        it = m.it
        if m.arrish(st, args[0]):
            return reduce_(m, st, op, args, kwargs, node)
        el, summ, d = m.iterate(st, args[0], node)
        if el is None:
            t = it.truth(summ, st)
            if t is not None and t == (op == "all"):
                return const(t, d | it.deps(st, summ))
            return unk("bool", d | it.deps(st, summ))
        out = const(op == "all")
        for x in el:
            t = it.truth(x, st)
            b = const(t, it.deps(st, x)) if t is not None else \
                unk("bool", it.deps(st, x), it.cond_term(x))
            out = m.bool_and(out, b, st) if op == "all" else \
                m.bool_or(out, b, st)
        return out.add(d)
    return f


def b_list(kind):
    def f(m, st, args, kwargs, node):
        it = m.it
        if not args:
            return it.new(st, O(kind, items=(), deps=it.pc), node, kind)
        a0 = args[0]
        if a0.c and not (a0.t or a0.r or a0.f) and all(
                k[0] in ("int", "float", "complex", "bool", "NoneType")
                for k in a0.c):
            it.kill(st)
            return BOT
        el, summ, d = m.iterate(st, args[0], node)
        if el is not None:
            return it.new(st, O(kind, items=tuple(el), deps=d), node, kind)
        ex = None
        a = m.arr_parts(st, args[0]) if m.arrish(st, args[0]) else None
        if a is not None and a[0] == 1 and a[1] is not None and a[2]:
            ex = ("lam1", a[1], a[2][0])
        return it.new(st, O(kind, items=None, rest=summ, deps=d, extra=ex),
                      node, kind)
    return f


def b_sorted(m, st, args, kwargs, node):
    it = m.it
    el, summ, d = m.iterate(st, args[0], node)
    for v in kwargs.values():
        if v.f:
            call_unknown(m, st, v, node, [summ])
    return it.new(st, O("list", items=None, rest=summ,
                        deps=d | it.deps(st, summ)), node, "sorted")


def b_dict(m, st, args, kwargs, node):
    it = m.it
    items, rest = {}, None
    deps = it.pc
    for a in args:
        if any(st.heap.get(r) is not None and st.heap[r].kind == "dict"
               for r in a.r) or a.t:
            i2, r2 = m.dict_view(st, a)
            items.update(i2)
            rest = r2 if rest is None else (join(rest, r2)
                                            if r2 is not None else rest)
            continue
        el, summ, d = m.iterate(st, a, node)
        deps = deps | d
        if el is None:
            p = m.unpack(st, summ, 2, node)
            rest = p[1] if rest is None else join(rest, p[1])
            continue
        for x in el:
            k, v = m.unpack(st, x, 2, node)
            if len(k.c) == 1 and not (k.t or k.r or k.f):
                items[next(iter(k.c))] = v
            else:
                rest = v if rest is None else join(rest, v)
    for k, v in kwargs.items():
        if k == "**":
            rest = v if rest is None else join(rest, v)
        else:
            items[ck(k)] = v
    return it.new(st, O("dict", items=items, rest=rest, deps=deps), node,
                  "dict")


def b_getattr(m, st, args, kwargs, node):
    it = m.it
    obj, nm = args[0], args[1]
    dflt = args[2] if len(args) > 2 else None
    outs = []
    if nm.c and not nm.t:
        for k in nm.c:
            if dflt is not None:
                for r in obj.r:
                    o = st.heap.get(r)
                    if o is not None and o.kind == "inst" and isinstance(
                            o.cls, ip.ClassInfo):
                        w = (o.attrs or {}).get(k[1])
                        known = o.cls.prop(k[1]) or \
                            o.cls.lookup(k[1])[1] is not None
                        if w is None and not known:
                            outs.append(dflt)
                            continue
                        if w is not None and UNB in w.c:
                            outs.append(dflt)
                            w = V(w.c - {UNB}, w.t, w.r, w.f, w.d, w._s)
                            if not w.bottom:
                                outs.append(w)
                            continue
                    outs.append(it.get_attr(st, V(r=frozenset([r]),
                                                  d=obj.d), k[1], node))
                for f in obj.f:
                    rec = it.record
                    outs.append(it.get_attr(
                        st, V(f=frozenset([f]), d=obj.d), k[1], node))
                if obj.c or obj.t:
                    outs.append(unk("any", obj.d))
            else:
                outs.append(it.get_attr(st, obj, k[1], node))
        return joinall(outs).add(it.deps(st, nm)) if outs else \
            unk("any", obj.d)
    d = it.deps(st, obj) | it.deps(st, nm)
    v = unk("any", d)
    for r in obj.r:
        o = st.heap.get(r)
        if o is not None and o.attrs:
            for w in o.attrs.values():
                v = join(v, w)
    return V(v.c - {UNB}, v.t, v.r, v.f, v.d | d)


def b_setattr(m, st, args, kwargs, node):
    it = m.it
    obj, nm, v = args
    if len(nm.c) == 1 and not nm.t:
        it.set_attr(st, obj, next(iter(nm.c))[1], v, node)
        return NONE
    for r in obj.r:
        o = st.heap.get(r)
        if o is None:
            continue
        it.mutate(st, r, node, "setattr")
        if o.attrs is not None:
            at = dict(o.attrs)
            for k in nm.c:
                at[k[1]] = join(at.get(k[1], UNBOUND), v)
            if nm.t:
                for k in at:
                    at[k] = join(at[k], v)
                o = o.rep(rest=v if o.rest is None else join(o.rest, v))
            st.heap[r] = o.rep(attrs=at)
    return NONE


def b_hasattr(m, st, args, kwargs, node):
    it = m.it
    obj, nm = args
    d = it.deps(st, obj) | it.deps(st, nm)
    if len(nm.c) == 1 and not nm.t and len(obj.r) == 1 and not (
            obj.t or obj.c or obj.f):
        k = next(iter(nm.c))[1]
        o = st.heap.get(next(iter(obj.r)))
        if o is not None and o.kind == "inst" and isinstance(
                o.cls, ip.ClassInfo):
            w = (o.attrs or {}).get(k)
            if w is not None:
                if UNB not in w.c:
                    return const(True, d)
                if w.c == {UNB} and not (w.t or w.r or w.f):
                    return const(False, d)
                return unk("bool", d)
            if o.cls.prop(k) or o.cls.lookup(k)[1] is not None:
                return const(True, d)
            return const(False, d)
        if o is not None and o.kind == "array":
            return const(k in ("shape", "ndim", "size", "dtype", "T", "copy",
                               "__len__", "__iter__", "__array__", "tolist"),
                         d)
        if o is not None and o.kind in ("list", "tuple"):
            return const(k in dir([]), d)
    if obj.c and not (obj.t or obj.r or obj.f) and len(nm.c) == 1:
        res = set(hasattr(k[1], next(iter(nm.c))[1]) for k in obj.c)
        if len(res) == 1:
            return const(res.pop(), d)
    return unk("bool", d)


def b_open(m, st, args, kwargs, node):
    it = m.it
    mode = args[1] if len(args) > 1 else kwargs.get("mode", const("r"))
    mk = next(iter(mode.c))[1] if len(mode.c) == 1 else "?"
    it.event("fs", node, op="open", mode=mk, path=strpat.pattern(args[0]),
                 paths=strpat.patterns(args[0]),
             d=tuple(sorted(map(str, it.deps(st, args[0])))))
    return it.new(st, O("file", attrs={"closed": FALSEV, "out": const("")},
                        deps=it.deps(st, args[0]) | {"fs"},
                        extra=(strpat.pattern(args[0]), mk)), node, "file")


def file_write(m, st, oid, args, node, newline=False):
    o = st.heap[oid]
    cur = o.attrs.get("out", const(""))
    it = m.it
    if it.in_fix:
        new = unk("str", alld(m, st, args, {}))
    else:
        new = cur
        for i, a in enumerate(args):
            b = a if m.stringy(a) else b_str(m, st, [a], {}, node)
            if i:
                new = strpat.concat(it, new, const(" "))
            new = strpat.concat(it, new, b)
        if newline:
            new = strpat.concat(it, new, const("\n"))
    at = dict(o.attrs)
    at["out"] = new
    st.heap[oid] = o.rep(attrs=at)


def b_round(m, st, args, kwargs, node):
    if m.arrish(st, args[0]):
        return elem1(m, st, "round", args, kwargs, node)
    v = args[0]
    d = alld(m, st, args, kwargs)
    s = None
    if v.s is not None:
        nd = args[1] if len(args) > 1 else kwargs.get("ndigits")
        if nd is None:
            s = v.s if v.s.integer else tm.fn("round", v.s, integer=True)
        elif nd.s is not None:
            s = tm.fn("roundn", v.s, nd.s)
    return unk("int" if len(args) == 1 and not kwargs else "float", d, s)


def b_abs(m, st, args, kwargs, node):
    return elem1(m, st, "abs", args, kwargs, node)


def b_next(m, st, args, kwargs, node):
    el, summ, d = m.iterate(st, args[0], node)
    v = el[0] if el else summ
    if len(args) > 1:
        v = join(v, args[1])
    return v.add(d)


def b_pow(m, st, args, kwargs, node):
    return m.binop("Pow", args[0], args[1], st, node)


def b_type(m, st, args, kwargs, node):
    v = args[0]
    fs = set()
    for r in v.r:
        o = st.heap.get(r)
        if o is not None and o.kind == "inst" and isinstance(
                o.cls, ip.ClassInfo):
            fs.add(o.cls)
        elif o is not None and o.kind == "array":
            fs.add(("ext", "numpy.ndarray"))
        elif o is not None and o.kind in ("list", "dict", "tuple", "set"):
            fs.add(("ext", "builtins." + o.kind))
    if fs and not (v.c or v.t or v.f) and len(fs) == 1:
        return V(f=frozenset(fs), d=v.d)
    return unk("any", v.d)


def b_callable(m, st, args, kwargs, node):
    v = args[0]
    if v.f and not (v.c or v.t or v.r):
        return const(True, v.d)
    if v.c and not (v.f or v.t or v.r):
        return const(False, v.d)
    return unk("bool", v.d)


def b_ident(m, st, args, kwargs, node):
    return args[0] if args else unk("any")


def b_format(m, st, args, kwargs, node):
    sp = ""
    if len(args) > 1 and len(args[1].c) == 1:
        sp = next(iter(args[1].c))[1]
    return strpat.made(strpat.hole(m.it, args[0], sp, st),
                       alld(m, st, args, kwargs))


def b_divmod(m, st, args, kwargs, node):
    a = m.binop("FloorDiv", args[0], args[1], st, node)
    b = m.binop("Mod", args[0], args[1], st, node)
    return m.it.new(st, O("tuple", items=(a, b)), node, "dm")


def b_input(m, st, args, kwargs, node):
    m.it.event("print", node, name="input", d=())
    return unk("str")


def b_exec(m, st, args, kwargs, node):
    m.it.unsup("exec/eval", node)
    return unk("any", alld(m, st, args, kwargs))


def b_slice(m, st, args, kwargs, node):
    """slice(..) used as an index"""
    it = m.it
    none = const(None)
    if kwargs or not 1 <= len(args) <= 3:
        return unk("any", alld(m, st, args, kwargs))
    if len(args) == 1:
        args = [none, args[0]]
    items = (list(args) + [none])[:3]
    return it.new(st, O("slice", items=tuple(items)), node, "slice")


B = {
    "slice": b_slice,
    "print": b_print, "len": b_len, "range": b_range,
    "enumerate": b_iter("enumerate"), "zip": b_iter("zip"),
    "map": b_iter("map"), "filter": b_iter("filter"),
    "reversed": b_iter("reversed"), "isinstance": b_isinstance,
    "int": b_num("int", int), "float": b_num("float", float),
    "complex": b_num("complex", complex), "str": b_str, "bool": b_bool,
    "repr": b_str, "min": b_minmax("min"), "max": b_minmax("max"),
    "sum": b_sum, "any": b_anyall("any"), "all": b_anyall("all"),
    "list": b_list("list"), "tuple": b_list("tuple"), "set": b_list("set"),
    "frozenset": b_list("set"), "sorted": b_sorted, "dict": b_dict,
    "getattr": b_getattr, "setattr": b_setattr, "hasattr": b_hasattr,
    "open": b_open, "round": b_round, "abs": b_abs, "next": b_next,
    "iter": b_ident, "pow": b_pow, "type": b_type, "callable": b_callable,
    "format": b_format, "divmod": b_divmod, "input": b_input,
    "exec": b_exec, "eval": b_exec,
}


# --------------------------------------------------------------- copies
def deepcopy(m, st, v, node, memo):
    it = m.it
    rs = set()
    for r in v.r:
        rs |= _dc(m, st, r, node, memo).r
    return V(v.c, v.t, frozenset(rs), v.f, v.d, v._s, v.x)


def _dc(m, st, r, node, memo):
    it = m.it
    if r in memo:
        return memo[r]
    o = st.heap.get(r)
    if o is None:
        return V(r=frozenset([r]))
    tag = "dc:%d" % (abs(hash(r)) % 1000003)
    if o.kind == "array":
        w = copy_array(m, st, V(r=frozenset([r])), node, tag)
        memo[r] = w
        return w
    oid = (it.ctx, it.nid(node), tag)
    memo[r] = V(r=frozenset([oid]))
    attrs = items = None
    if o.attrs is not None:
        attrs = {k: deepcopy(m, st, x, node, memo)
                 for k, x in o.attrs.items()}
    if isinstance(o.items, dict):
        items = {k: deepcopy(m, st, x, node, memo)
                 for k, x in o.items.items()}
    elif o.items is not None:
        items = tuple(deepcopy(m, st, x, node, memo) for x in o.items)
    rest = deepcopy(m, st, o.rest, node, memo) if o.rest is not None \
        else None
    st.heap[oid] = o.rep(attrs=attrs, items=items, rest=rest,
                         origin="fresh", weak=bool(it.in_fix))
    return memo[r]


def copy_array(m, st, v, node, tag="cp", dtype=None, keep=True):
    it = m.it
    part = m.arr_parts(st, v)
    return it.new_array(st, node, part[1] if keep else None, part[0],
                        part[3], shape=part[2],
                        dtype=dtype if dtype is not None else part[4],
                        tag=tag)


def shallow(m, st, v, node):
    it = m.it
    outs = []
    for r in it.each(v.r):
        o = st.heap.get(r)
        if o is None:
            continue
        one = V(r=frozenset([r]), d=v.d)
        if o.kind == "array":
            outs.append(copy_array(m, st, one, node))
        else:
            outs.append(V(r=frozenset([it.alloc(
                st, o.rep(origin="fresh", weak=False), node, "sh")]),
                d=v.d))
    if v.c or v.t or v.f:
        outs.append(V(v.c, v.t, EMPTY, v.f, v.d, v._s, v.x))
    return joinall(outs) if outs else unk("any", v.d)


def namedtuple_(m, st, args, kwargs, node):
    nm = next(iter(args[0].c))[1] if args[0].c else "nt"
    fields = []
    fv = args[1]
    if fv.c:
        fields = next(iter(fv.c))[1].replace(",", " ").split()
    else:
        el, _, _ = m.iterate(st, fv, node)
        for x in el or ():
            fields.append(next(iter(x.c))[1])
    dfl = ()
    if "defaults" in kwargs:
        el, _, _ = m.iterate(st, kwargs["defaults"], node)
        if el:
            dfl = tuple(zip(fields[len(fields) - len(el):], el))
    return V(f=frozenset([("nt", nm, tuple(fields), dfl)]))


# ------------------------------------------------------------- numpy
def f_elem(name):
    if name == "abs":
        return tm.absv
    if name == "exp":
        return tm.exp
    if name == "ln":
        return tm.ln
    if name == "log10":
        return lambda x: tm.ln(x) / tm.ln(tm.num(10))
    if name == "log2":
        return lambda x: tm.ln(x) / tm.ln(tm.num(2))
    if name == "log1p":
        return lambda x: tm.ln(x + 1)
    if name == "expm1":
        return lambda x: tm.exp(x) - 1
    if name == "sqrt":
        return lambda x: tm.power(x, Fraction(1, 2))
    if name == "square":
        return lambda x: x * x
    if name == "recip":
        return lambda x: tm.power(x, -1)
    if name == "conj":
        return tm.conj
    if name == "re":
        return tm.re
    if name == "im":
        return tm.im
    if name == "neg":
        return lambda x: -x
    if name == "pos":
        return lambda x: x
    if name == "not":
        return tm.lnot
    if name == "sin":
        return lambda x: (tm.exp(tm.I * x) - tm.exp(-tm.I * x)) * \
            tm.mono((), (tm.ZERO, Fraction(-1, 2)))
    if name == "cos":
        return lambda x: (tm.exp(tm.I * x) + tm.exp(-tm.I * x)) * \
            tm.num(Fraction(1, 2))
    if name == "tan":
        return lambda x: f_elem("sin")(x) / f_elem("cos")(x)
    if name == "sinh":
        return lambda x: (tm.exp(x) - tm.exp(-x)) * tm.num(Fraction(1, 2))
    if name == "cosh":
        return lambda x: (tm.exp(x) + tm.exp(-x)) * tm.num(Fraction(1, 2))
    if name == "tanh":
        def tanh(x):
            e = tm.exp(x * 2)
            return (e - 1) / (e + 1)
        return tanh
    if name == "deg2rad":
        return lambda x: x * tm.PI / 180
    if name == "isnan":
        def isnan(x):
            if x is tm.atom("nan"):
                return tm.TRUE
            if x.const is not None:
                return tm.FALSE
            # a polynomial is a number if all its cells are
            out = tm.FALSE
            for m, c in x.terms:
                for b, e in m:
                    if b.op == "br":
                        continue
                    if b.op not in ("sel", "atom") or not (
                            isinstance(e, (int, Fraction)) and e > 0 and
                            e == int(e)):
                        return tm.cond_fn("isnan", x)
                    if b.op == "sel":
                        out = tm.lor(out, tm.cond_fn("isnan", tm.lift(b)))
            return out
        return isnan
    if name in ("isfinite", "isinf"):
        return lambda x: tm.cond_fn(name, x)
    if name == "sign":
        return lambda x: tm.gt0(x) - tm.gt0(-x)
    if name in ("floor", "ceil", "trunc", "rint", "round"):
        return lambda x: x if x.integer else tm.fn(name, x, integer=True)
    if name == "nan_to_num":
        return lambda x: tm.phi(tm.cond_fn("isnan", x), tm.num(0), x)
    if name == "angle":
        return lambda x: tm.fn("angle", x)
    return lambda x: tm.fn(name, x)


def outparam(m, st, v, kwargs, node):
    out = kwargs.get("out")
    if out is None or out.c == frozenset([ck(None)]):
        return v
    m.store_array(st, out, None, v, node, strong=len(out.r) == 1) \
        if len(out.r) == 1 else None
    return out


def elem1(m, st, name, args, kwargs, node):
    it = m.it
    v = args[0]
    dt = "bool" if name in ("isnan", "isfinite", "isinf") else None
    if name == "not":
        dt = "bool"
    f = f_elem(name)
    if name == "round":
        nd = kwargs.get("decimals", kwargs.get(
            "ndigits", args[1] if len(args) > 1 else None))
        if nd is not None:
            if nd.s is not None and nd.s.rational is not None:
                f = lambda x, n=nd.s: tm.fn("roundn", x, n)
            else:
                f = None
    elif len(args) > 1 or any(k not in ("out", "dtype", "deg")
                              for k in kwargs):
        f = None          # where=, nan=, ..
    if name == "angle" and ("deg" in kwargs or len(args) > 1):
        f = None
    seqish = any(st.heap.get(r) is not None and st.heap[r].kind in (
        "list", "tuple") for r in v.r)
    if m.arrish(st, v) or seqish:
        part = m.arr_parts(st, v)
        if name in ("exp", "ln", "sqrt", "sin", "cos", "log10", "tanh",
                    "angle", "re", "im") and dt is None:
            dt = "float" if part[4] in ("int", "float") else None
        if name == "not" and part[4] != "bool":
            dt = None
        r = m.elementwise(st, [v], node, f, dtype=dt, tag="e1" + name) \
            if f is not None else it.new_array(
                st, node, None, part[0], alld(m, st, args, kwargs),
                shape=part[2], tag="e1" + name)
        return outparam(m, st, r, kwargs, node)
    d = alld(m, st, args, kwargs)
    s = None
    if v.s is not None and f is not None:
        try:
            s = f(v.s)
        except (tm.TooBig, ZeroDivisionError):
            s = None
    if dt == "bool":
        if s is not None and s.rational is not None:
            return const(bool(s.rational), d)
        return unk("bool", d, s)
    tag = "num"
    if v.t & {"any"} or v.f:
        tag = "any"
    elif v.t <= {"float", "int"} and all(k[0] in ("int", "float")
                                         for k in v.c):
        tag = "float"
        if name == "abs" and v.t <= {"int"} and all(
                k[0] == "int" for k in v.c):
            tag = "int"
    if name == "abs" and v.c and not v.t and not v.r:
        try:
            return V(c=frozenset(ck(abs(k[1])) for k in v.c), d=d)
        except TypeError:
            pass
    r = unk(tag, d, s)
    return outparam(m, st, r, kwargs, node)


def axis_of(m, args, kwargs, pos=1):
    a = kwargs.get("axis")
    if a is None and len(args) > pos:
        a = args[pos]
    if a is None or a.c == frozenset([ck(None)]):
        return None
    k = m.int_const(a)
    return k if k is not None else "?"


REDNAME = {"amin": "min", "amax": "max", "average": "mean",
           "trapezoid": "trapz"}


def reduce_(m, st, name, args, kwargs, node):
    it = m.it
    name = REDNAME.get(name, name)
    v = args[0]
    d = alld(m, st, args, kwargs)
    intres = name in ("argmin", "argmax", "nanargmin", "nanargmax",
                      "count_nonzero")
    tag = "int" if intres else ("bool" if name in ("any", "all") else "num")
    if not m.arrish(st, v):
        seqish = any(st.heap.get(r) is not None and st.heap[r].kind in (
            "list", "tuple") for r in v.r)
        if not seqish:
            if v.t & {"any"} or v.f or v.bottom:
                return unk("any" if tag == "num" else tag, d)
            s = v.s if name in ("sum", "min", "max", "mean", "median") \
                else None
            return unk(tag, d, s)
    part = m.arr_parts(st, v)
    rk, c, sh = part[0], part[1], part[2]
    if tag == "num" and part[4] in ("int", "float") and name not in (
            "mean", "median", "std", "var"):
        tag = part[4]
    elif tag == "num" and part[4] in ("int", "float"):
        tag = "float"
    if name == "sum" and part[4] == "bool":
        tag = "int"
    ax = axis_of(m, args, kwargs, 3 if name == "trapz" else 1)
    weights = "weights" in kwargs
    extra = [k for k in kwargs if k not in ("axis", "keepdims", "dtype")]
    if name == "trapz":
        ax = axis_of(m, [], kwargs)
    if rk is not None and ax is not None and ax != "?":
        if rk == 1:
            ax = None
        else:
            ax = ax % rk
    if rk is None:
        if ax is None:
            return unk(tag, d)
        a = it.new_array(st, node, None, None, d, tag="red")
        return V(t=frozenset([tag]), r=a.r, d=d)
    if ax is None and "keepdims" not in kwargs:
        s = None
        if c is not None and it.terms:
            try:
                if name == "trapz":
                    s = _trapz(m, st, args, kwargs, rk, c, sh)
                elif not extra and len(args) <= 1:
                    s = red_term(name, rk, c, sh, part[4])
            except tm.TooBig:
                s = None
        r = unk(tag, d, s)
        return outparam(m, st, r, {k: kwargs[k] for k in kwargs
                                   if k == "out"}, node)
    if ax == "?" or "keepdims" in kwargs:
        return it.new_array(st, node, None,
                            rk if "keepdims" in kwargs else None, d,
                            tag="red")
    content = None
    shp = None
    if sh is not None:
        shp = tuple(x for i, x in enumerate(sh) if i != ax)
    if c is not None and not extra and len(args) <= 2 and it.terms:
        n = sh[ax] if sh else None

        def content(i, c=c, ax=ax, n=n, dt=part[4]):
            def g(j):
                return c(tuple(i[:ax]) + (j[0],) + tuple(i[ax:]))
            return red_term(name, 1, g, (n,), dt)
        content = md._memo(content)
    return it.new_array(st, node, content, rk - 1, d, shape=shp,
                        dtype=tag if tag in ("int", "float", "bool")
                        else None, tag="red")


def red_term(name, rk, c, sh, dt=None):
    n = None
    if sh is not None and all(x is not None for x in sh):
        n = tm.num(1)
        for x in sh:
            n = n * x
    if name == "mean":
        if n is None:
            return tm.fn("mean", tm.lam(rk, c))
        return red_term("sum", rk, c, sh) / n
    if name in ("sum", "nansum") and n is not None and name == "sum":
        vs = [tm.bvar() for _ in range(rk)]
        body = c(tuple(vs))
        for x, k in zip(vs, sh):
            body = body * tm.ge0(x) * tm.gt0(k - x)
        for x in vs:
            body = tm.sum_over(tm.as_base(x), body)
        return body
    if name in ("max", "min", "any", "all", "count_nonzero") and \
            sh is not None and (rk > 1 or name != "count_nonzero"):
        # known axes one by one
        for k in range(rk):
            r = sh[k].rational if sh[k] is not None else None
            if r is None or not 0 < r <= 16 or (rk == 1 and r > 8):
                continue
            out = None
            rest = sh[:k] + sh[k + 1:]
            for z in range(int(r)):
                z = (tm.num(z),)

                def g(j, k=k, z=z):
                    return c(tuple(j[:k]) + z + tuple(j[k:]))
                x = red_term(name, rk - 1, g, rest, dt) if rk > 1 else g(())
                if rk == 1 and name in (
                        "any", "all", "count_nonzero") and dt != "bool":
                    x = tm.lnot(tm.eq0(x))
                if out is None:
                    out = x
                elif name == "count_nonzero":
                    out = out + x
                elif name == "all":
                    out = out * x
                elif name == "any":
                    out = tm.lor(out, x)
                else:
                    out = (md.tm_max if name == "max" else md.tm_min)(out, x)
            return out
    if name in ("argmin", "argmax", "nanargmin", "nanargmax",
                "count_nonzero"):
        return tm.fn(name, tm.lam(rk, c), n if n is not None else "n?",
                     integer=True)
    if name in ("any", "all"):
        return tm.cond_fn(name, tm.lam(rk, c), n if n is not None else "n?")
    return tm.fn(name, tm.lam(rk, c), n if n is not None else "n?")


def _trapz(m, st, args, kwargs, rk, c, sh):
    if rk != 1:
        return None
    x = args[1] if len(args) > 1 else kwargs.get("x")
    if x is None:
        return None
    p = m.arr_parts(st, x)
    if p[0] != 1 or p[1] is None:
        return None
    return tm.fn("trapz", tm.lam(1, c), tm.lam(1, p[1]))


def shape_of(m, st, v, node):
    """shape argument -> (rank, tuple of P|None)"""
    if v.r:
        el, summ, _ = m.iterate(st, v, node)
        if el is None:
            return None, None
        return len(el), tuple(_shp(x) for x in el)
    if v.t & {"any"} and v.s is None:
        return None, None
    return 1, (_shp(v),)


def _shp(x):
    return x.s


def dtype_of(m, st, v):
    if v is None:
        return None
    for f in v.f:
        if isinstance(f, tuple) and f[0] == "ext":
            n = f[1].split(".")[-1]
            if n.startswith("complex"):
                return "complex"
            if n.startswith("float") or n == "double":
                return "float"
            if n.startswith(("int", "uint")):
                return "int"
            if n.startswith("bool"):
                return "bool"
    for k in v.c:
        if k[0] == "str":
            n = k[1]
            if n.startswith("complex") or n[:1] == "c":
                return "complex"
            if n.startswith("float") or n[:1] == "f":
                return "float"
            if n.startswith("int") or n[:1] == "i":
                return "int"
            if n.startswith("bool"):
                return "bool"
    return None


def numpy_call(m, st, fn, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    if fn in ("float64", "float32", "float_", "double"):
        return B["float"](m, st, args, kwargs, node) if not (
            args and m.arrish(st, args[0])) else copy_array(
                m, st, args[0], node)
    if fn in ("int64", "int32", "int_", "intp"):
        return B["int"](m, st, args, kwargs, node)
    if fn in ("complex128", "complex64"):
        return B["complex"](m, st, args, kwargs, node)
    if fn in ("bool_",):
        return B["bool"](m, st, args, kwargs, node)
    if fn.startswith("linalg."):
        return linalg(m, st, fn[7:], args, kwargs, node)
    if fn.startswith("fft."):
        return it.new_array(st, node, None, None, d, tag="fft")
    if "." in fn and fn.split(".")[-1] == "at":
        # ufunc.at(a, idx, b): in-place
        if args:
            for r in args[0].r:
                m.store_array(st, V(r=frozenset([r])),
                              args[1] if len(args) > 1 else None,
                              args[2] if len(args) > 2 else unk("num"),
                              node, strong=False)
        return NONE
    if "." in fn and fn.split(".")[-1] == "outer":
        return it.new_array(st, node, None, None, d, tag="uo")
    if "." in fn and fn.split(".")[-1] in ("reduce", "accumulate"):
        return unk("any", d)
    h = NP.get(fn)
    if h is not None:
        return h(m, st, args, kwargs, node)
    if fn in ELEM1 and ELEM1[fn] not in ("re", "im"):
        return elem1(m, st, ELEM1[fn], args, kwargs, node)
    if fn in ELEM2:
        op = ELEM2[fn]
        r = elem2(m, st, op, args, node)
        return outparam(m, st, r, kwargs, node)
    if fn in REDUCE:
        return reduce_(m, st, fn, args, kwargs, node)
    if fn in VIEWFUN:
        return view_fun(m, st, fn, args, kwargs, node)
    if fn in ("copyto", "put", "place", "putmask", "fill_diagonal",
              "random.shuffle"):
        src = args[-1] if len(args) > 1 else unk("num")
        for r in args[0].r:
            o = st.heap.get(r)
            if o is not None and o.kind == "array":
                full = None if fn == "copyto" and len(args) == 2 and \
                    not kwargs else unk("any")
                m.store_array(st, V(r=frozenset([r])), full,
                              args[1] if fn == "copyto" else src, node,
                              strong=fn == "copyto" and len(
                                  args[0].r) == 1 and "where" not in kwargs)
        return NONE
    if fn in ("errstate", "printoptions"):
        return it.new(st, O("ext", cls="np." + fn), node, "es")
    if fn in ("ndarray", "matrix"):
        return it.new_array(st, node, None, None, d, tag="nd")
    if fn in ("savetxt", "save", "savez", "savez_compressed"):
        it.event("fs", node, op="write", mode="w",
                 path=strpat.pattern(args[0]),
                 paths=strpat.patterns(args[0]),
                 d=tuple(sorted(map(str, it.deps(st, args[0])))))
        return NONE
    if fn in ("genfromtxt", "loadtxt", "load", "fromfile"):
        it.event("fs", node, op="read", mode="r",
                 path=strpat.pattern(args[0]),
                 paths=strpat.patterns(args[0]),
                 d=tuple(sorted(map(str, it.deps(st, args[0])))))
        return it.new_array(st, node, None, None if fn != "x" else 2,
                            d | {"fs"}, tag="ld")
    if fn in ("iscomplexobj", "isscalar", "allclose", "array_equal",
              "isreal", "isrealobj", "iscomplex", "shares_memory",
              "may_share_memory", "issubdtype"):
        if fn in ("isreal", "iscomplex") and args and m.arrish(st, args[0]):
            p = m.arr_parts(st, args[0])
            return it.new_array(st, node, None, p[0], d, shape=p[2],
                                dtype="bool", tag="isr")
        if fn == "isscalar" and args:
            v = args[0]
            if v.r and not (v.c or v.t or v.f):
                return const(False, v.d)
            if (v.c or v.t) and not v.r and not v.t & {"any"} and \
                    ck(None) not in v.c:
                return const(True, v.d)
        return unk("bool", d)
    if fn == "isclose":
        if any(m.arrish(st, a) for a in args[:2]):
            r = m.elementwise(st, args[:2], node,
                              lambda x, y: tm.cond_fn("isclose", x - y),
                              dtype="bool")
            return r
        s = None
        if len(args) > 1 and args[0].s is not None and \
                args[1].s is not None:
            s = tm.cond_fn("isclose", args[0].s - args[1].s)
        return unk("bool", d, s)
    if fn in ("shape",):
        return it.get_attr(st, args[0], "shape", node)
    if fn in ("ndim",):
        v = args[0]
        if m.arrish(st, v):
            return it.get_attr(st, v, "ndim", node)
        if v.r:
            rk = m.arr_parts(st, v)[0]
            return const(rk, d) if rk is not None else unk("int", d)
        if (v.t or v.c) and not v.r and not v.t & {"any"}:
            return const(0, v.d)
        return unk("int", d)
    if fn == "size":
        return it.get_attr(st, args[0], "size", node) \
            if m.arrish(st, args[0]) else unk("int", d)
    if fn == "einsum":
        return it.new_array(st, node, None, None, d, tag="ein")
    if fn in ("vectorize",):
        return args[0]
    if fn in ("apply_along_axis", "apply_over_axes", "piecewise",
              "fromfunction", "frompyfunc"):
        for a in args:
            if a.f:
                call_unknown(m, st, a, node)
        return it.new_array(st, node, None, None, d, tag="aa")
    if fn in RETARR or fn.rstrip("_") in RETARR or fn + "_" in RETARR:
        rk = 1 if fn in RANK1 else None
        return it.new_array(st, node, None, rk, d, tag=fn)
    if fn in ("nditer", "ndenumerate", "ndindex"):
        return it.new(st, O("list", items=None, rest=unk("any", d)), node,
                      "ndi")
    if fn in ("dtype", "finfo", "iinfo"):
        return unk("any")
    it.event("extdefault", node, name="numpy." + fn)
    a = it.new_array(st, node, None, None, d, tag="np?")
    return V(t=frozenset(["any"]), r=a.r, d=d)


def elem2(m, st, op, args, node):
    a, b = args[0], args[1]
    seqish = any(st.heap.get(r) is not None and st.heap[r].kind in (
        "list", "tuple") for v in (a, b) for r in v.r)
    if m.arrish(st, a) or m.arrish(st, b) or seqish:
        dt = "bool" if op in md._CMP or op in ("BitAnd", "BitOr") else None
        return m.elementwise(st, [a, b], node,
                             lambda x, y: m.arith(op, x, y), dtype=dt,
                             tag="e2" + op)
    if op in md._CMP:
        return m.compare(op, a, b, st, node)
    if op in ("max2", "min2"):
        return minmax2(m, st, op[:3], a, b, alld(m, st, args, {}), node)
    if op in ("BitAnd", "BitOr"):
        d = alld(m, st, args, {})
        s = None
        if a.s is not None and b.s is not None:
            s = m.arith(op, a.s, b.s)
        return unk("bool", d, s)
    if op in ("arctan2", "hypot"):
        d = alld(m, st, args, {})
        s = None
        if a.s is not None and b.s is not None:
            s = tm.fn(op, a.s, b.s) if op == "arctan2" else tm.power(
                a.s * a.s + b.s * b.s, Fraction(1, 2))
        return unk("num", d, s)
    return m.binop(op, a, b, st, node)


def uninit(it, node):
    """content of memory that nobody wrote yet"""
    a = tm.arr("uninitialised@%s" % (it.nid(node),), False)
    return lambda i: tm.sel(a, i)


def np_create(val):
    def f(m, st, args, kwargs, node):
        it = m.it
        shp = args[0] if args else kwargs.get("shape")
        rk, sh = shape_of(m, st, shp, node)
        v = val
        pos = 1
        d = it.deps(st, shp)
        if val == "v":
            fv = args[1] if len(args) > 1 else kwargs.get("fill_value")
            v = fv
            pos = 2
            d = d | it.deps(st, fv)
        dtv = args[pos] if len(args) > pos else kwargs.get("dtype")
        dt = dtype_of(m, st, dtv) or ("float" if dtv is None and val != "v"
                                      else None)
        content = None
        if isinstance(v, V):
            if v.s is not None:
                s = v.s
                content = lambda i, s=s: s
        elif v is not None:
            s = tm.num(v)
            content = lambda i, s=s: s
        elif it.terms and rk is not None:
            content = uninit(it, node)
        return it.new_array(st, node, content, rk, d, shape=sh, dtype=dt,
                            tag="cr")
    return f


def np_like(val):
    def f(m, st, args, kwargs, node):
        it = m.it
        a = args[0]
        if not m.arrish(st, a) and not a.r:
            # scalar-like
            part = (0 if not a.t & {"any"} else None, None, (), a.d, None)
        else:
            part = m.arr_parts(st, a)
        d = it.deps(st, a)
        v = val
        dtv = kwargs.get("dtype") or (args[1] if len(args) > 1
                                      and val != "v" else None)
        content = None
        if val == "v":
            fv = args[1]
            d = d | it.deps(st, fv)
            if fv.s is not None:
                s = fv.s
                content = lambda i, s=s: s
        elif v is not None:
            s = tm.num(v)
            content = lambda i, s=s: s
        elif it.terms and part[0] is not None:
            content = uninit(it, node)
        return it.new_array(st, node, content, part[0], d, shape=part[2],
                            dtype=dtype_of(m, st, dtv) or part[4],
                            tag="like")
    return f


def np_array(m, st, args, kwargs, node):
    it = m.it
    v = args[0]
    dtv = kwargs.get("dtype") or (args[1] if len(args) > 1 else None)
    dt = dtype_of(m, st, dtv)
    if "copy" in kwargs and kwargs["copy"].c != frozenset([ck(True)]):
        r = view_fun(m, st, "asarray", args, kwargs, node)
        return r
    part = m.arr_parts(st, v)
    if dt is None and part[4] is None and v.r:
        dt = list_dtype(m, st, v)
    nd = kwargs.get("ndmin")
    rk, c, sh = part[0], part[1], part[2]
    if v.t & {"any"} or (v.r and part[0] is None):
        rk = None
    return it.new_array(st, node, c, rk, it.deps(st, v),
                        shape=sh if rk is not None else None,
                        dtype=dt or part[4], tag="arr")


def list_dtype(m, st, v):
    tags = set()
    for r in v.r:
        o = st.heap.get(r)
        if o is None or o.kind not in ("list", "tuple"):
            return None
        xs = list(o.items or ())
        if o.rest is not None:
            xs.append(o.rest)
        for x in xs:
            if x.r or x.f:
                return None
            tags |= x.t | set(k[0] for k in x.c)
    if tags and tags <= {"bool"}:
        return "bool"
    if tags and tags <= {"int", "bool"}:
        return "int"
    if tags and tags <= {"int", "float", "bool"}:
        return "float"
    return None


def np_copy(m, st, args, kwargs, node):
    return np_array(m, st, args[:1], {}, node)


def np_linspace(m, st, args, kwargs, node):
    it = m.it
    a = args[0] if args else kwargs["start"]
    b = args[1] if len(args) > 1 else kwargs["stop"]
    n = args[2] if len(args) > 2 else kwargs.get("num", const(50))
    d = alld(m, st, args, kwargs)
    content = None
    end = kwargs.get("endpoint", args[3] if len(args) > 3 else const(True))
    if a.s is not None and b.s is not None and n.s is not None and not (
            set(kwargs) - {"start", "stop", "num", "dtype", "endpoint"}) and \
            len(args) <= 4 and not (a.r or b.r) and len(end.c) == 1 and \
            not (end.t or end.r):
        x, y, k = a.s, b.s, n.s
        k = k - 1 if next(iter(end.c))[1] else k
        content = lambda i: x + (y - x) * i[0] / k
    r = it.new_array(st, node, content, 1, d, shape=(n.s,), dtype="float",
                     tag="lin")
    if kwargs.get("retstep") is not None and \
            kwargs["retstep"].c != frozenset([ck(False)]):
        return it.new(st, O("tuple", items=(r, unk("float", d))), node,
                      "lt")
    return r


def np_arange(m, st, args, kwargs, node):
    it = m.it
    lo, step = const(0), const(1)
    if len(args) == 1:
        hi = args[0]
    else:
        lo, hi = args[0], args[1]
        if len(args) > 2:
            step = args[2]
    d = alld(m, st, args, kwargs)
    content = sh = None
    if lo.s is not None and step.s is not None:
        a, k = lo.s, step.s
        content = lambda i: a + k * i[0]
        if hi.s is not None:
            n = (hi.s - a) / k
            sh = (n,) if n.integer else (tm.fn("len_ceil", n,
                                               integer=True),)
            r = n.rational
            if r is not None:
                sh = (tm.num(-((-r.numerator) // r.denominator)),)
    ints = all(v.t <= {"int"} and all(k[0] == "int" for k in v.c)
               for v in args)
    dt = dtype_of(m, st, kwargs.get("dtype"))
    if dt not in (None, "float", "complex") and not ints:
        content = None
    return it.new_array(st, node, content, 1, d, shape=sh,
                        dtype=dt or ("int" if ints else "float"), tag="ar")


def b_at(part, i):
    return part[1]((i,))


def np_interp(m, st, args, kwargs, node):
    it = m.it
    x, xp, fp = args[:3]
    d = alld(m, st, args, kwargs)
    p, q = m.arr_parts(st, xp), m.arr_parts(st, fp)
    f = None
    ends = [args[3] if len(args) > 3 else kwargs.get("left", NONE),
            args[4] if len(args) > 4 else kwargs.get("right", NONE)]
    n = md.length(p) or md.length(q)
    given = [e for e in ends if e.c != NONE.c]
    if p[0] == 1 and q[0] == 1 and p[1] is not None and q[1] is not None \
            and len(args) <= 5 and not set(kwargs) - {"left", "right"} \
            and it.terms and (not given or n) and all(
                e.s is not None for e in given):
        try:
            a, b = tm.lam(1, p[1]), tm.lam(1, q[1])
            ex = []
            if given:
                # a missing value is that of the end point
                ex = [ends[0].s if ends[0] in given else b_at(q, tm.num(0)),
                      ends[1].s if ends[1] in given else
                      b_at(q, n[0] - tm.num(1))]
            ex = list(n) + ex
            f = lambda z: tm.fn("interp", z, a, b, *ex, real=b.real)
        except tm.TooBig:
            f = None
    if m.arrish(st, x) or any(st.heap.get(r) is not None for r in x.r):
        part = m.arr_parts(st, x)
        if f is not None and part[1] is not None:
            r = m.elementwise(st, [x], node, f, tag="interp")
            rid = next(iter(st.heap[next(iter(r.r))].bases))
            reg = st.heap[rid]
            st.heap[rid] = reg.rep(deps=reg.deps | d, dtype=None)
            return r
        return it.new_array(st, node, None, part[0], d, shape=part[2],
                            tag="interp")
    s = f(x.s) if f is not None and x.s is not None else None
    return unk("any" if x.t & {"any"} or x.f else "float", d, s)


def np_where(m, st, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    if len(args) == 1:
        part = m.arr_parts(st, args[0])
        n = part[0]
        if n is None:
            return it.new(st, O("tuple", items=None, rest=it.new_array(
                st, node, None, 1, d, dtype="int", tag="w")), node, "wh")
        items = []
        for k in range(n):
            c = None
            if n == 1 and part[1] is not None and it.terms:
                mk = tm.lam(1, part[1])
                c = lambda i, mk=mk, ln=md.length(part): tm.fn(
                    "nthtrue", mk, i[0], *ln, integer=True)
            items.append(it.new_array(
                st, node, c, 1, d, dtype="int", tag="w%d" % k,
                shape=None if c is None else
                (md.count(part),)))
        return it.new(st, O("tuple", items=tuple(items)), node, "wh")
    if not any(m.arrish(st, a) or a.r for a in args):
        c, a, b = args
        ct = it.cond_term(c)
        v = join(a, b, ct)
        return v.add(d)
    dts = set()
    for v in args[1:3]:
        p = m.arr_parts(st, v)
        kinds = set(v.t) | {k[0] for k in v.c}
        dts.add(p[4] if p[0] != 0 else
                kinds.pop() if len(kinds) == 1 else None)
    dt = dts.pop() if len(dts) == 1 else None
    return m.elementwise(st, list(args), node, tm.phi, tag="where",
                         dtype=dt if dt in ("bool", "int", "float") else None)


def np_nonzero(m, st, args, kwargs, node):
    return np_where(m, st, args[:1], {}, node)


def np_flatnonzero(m, st, args, kwargs, node):
    if m.arr_parts(st, args[0])[0] == 1:
        v = np_where(m, st, args[:1], {}, node)
        return st.heap[next(iter(v.r))].items[0]
    return m.it.new_array(st, node, None, 1, alld(m, st, args, kwargs),
                          dtype="int", tag="fnz")


def stack(kind):
    def f(m, st, args, kwargs, node):
        it = m.it
        d = alld(m, st, args, kwargs)
        el, summ, _ = m.iterate(st, args[0], node)
        if el is None:
            return it.new_array(st, node, None, None, d, tag="stk")
        parts = [m.arr_parts(st, x) for x in el]
        if any(p[0] is None for p in parts):
            return it.new_array(st, node, None, None, d, tag="stk")
        rks = set(p[0] for p in parts)
        dts = set(p[4] for p in parts)
        dt = dts.pop() if len(dts) == 1 else None
        cs = [p[1] for p in parts]
        known = all(c is not None for c in cs) and it.terms
        ax = axis_of(m, args, kwargs)
        n = len(el)
        if kind in ("vstack", "stack", "column_stack") and rks == {1} and \
                (kind != "stack" or ax in (None, 0, 1, -1)):
            tr = kind == "column_stack" or (kind == "stack"
                                            and ax in (1, -1))
            content = None
            if known:
                if tr:
                    content = lambda i: md.pick(i[1], [c((i[0],))
                                                       for c in cs])
                else:
                    content = lambda i: md.pick(i[0], [c((i[1],))
                                                       for c in cs])
            ln = parts[0][2][0] if parts[0][2] else None
            sh = (ln, tm.num(n)) if tr else (tm.num(n), ln)
            return it.new_array(st, node, content, 2, d, shape=sh, dtype=dt,
                                tag="stk")
        if kind in ("hstack", "append", "concatenate") and rks <= {0, 1} \
                and ax in (None, 0):
            lens = []
            for p in parts:
                if p[0] == 0:
                    lens.append(tm.num(1))
                else:
                    lens.append(p[2][0] if p[2] else None)
            content = None
            tot = None
            if all(x is not None for x in lens):
                tot = tm.num(0)
                for x in lens:
                    tot = tot + x
            if known and all(x is not None for x in lens[:-1]):
                def content(i, cs=cs, lens=lens, parts=parts):
                    offs = tm.num(0)
                    res = []
                    for c, p, ln in zip(cs, parts, lens):
                        res.append((offs, c((i[0] - offs,)) if p[0]
                                    else c(())))
                        offs = offs + ln if ln is not None else offs
                    out = res[-1][1]
                    for k in range(len(res) - 2, -1, -1):
                        out = tm.phi(tm.gt0(res[k + 1][0] - i[0]),
                                     res[k][1], out)
                    return out
            return it.new_array(st, node, content, 1, d, shape=(tot,),
                                dtype=dt, tag="stk")
        rk = None
        if kind in ("concatenate", "hstack", "vstack") and len(rks) == 1:
            rk = max(rks.pop(), 2 if kind == "vstack" else 1)
        if kind == "vstack":
            rk = 2
        sh = None
        if kind == "vstack" and rk == 2 and rks <= {1, 2}:
            rows = tm.num(0)
            cols = None
            for p in parts:
                if p[0] == 1:
                    rows = rows + 1 if rows is not None else None
                    cols = cols or (p[2][0] if p[2] else None)
                else:
                    r0 = p[2][0] if p[2] else None
                    rows = rows + r0 if rows is not None and r0 is not None \
                        else None
                    cols = cols or (p[2][1] if p[2] else None)
            sh = (rows, cols)
        return it.new_array(st, node, None, rk, d, shape=sh, dtype=dt,
                            tag="stk")
    return f


def np_append(m, st, args, kwargs, node):
    it = m.it
    if "axis" in kwargs or len(args) > 2:
        return it.new_array(st, node, None, None, alld(m, st, args, kwargs),
                            tag="app")
    t = it.new(st, O("tuple", items=tuple(args[:2])), node, "ap")
    return stack("append")(m, st, [t], {}, node)


def np_cumsum(m, st, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    p = m.arr_parts(st, args[0])
    c = None
    if p[0] == 1 and p[1] is not None and it.terms:
        def c(i, c0=p[1]):
            k = tm.bvar()
            b = tm.as_base(k)
            return tm.sum_over(b, c0((k,)) * tm.ge0(k) * tm.ge0(i[0] - k))
        c = md._memo(c)
    return it.new_array(st, node, c, 1, d, shape=p[2] if p[0] == 1 else
                        None, tag="cs")


def np_diff(m, st, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    p = m.arr_parts(st, args[0])
    c = sh = None
    if p[0] == 1 and len(args) == 1 and not kwargs:
        if p[1] is not None:
            c0 = p[1]
            c = lambda i: c0((i[0] + 1,)) - c0((i[0],))
        if p[2] and p[2][0] is not None:
            sh = (p[2][0] - 1,)
    return it.new_array(st, node, c, p[0], d, shape=sh, tag="df")


def np_opaque1(name):
    """rank-1 array function of arrays and scalars, opaque content"""
    def f(m, st, args, kwargs, node):
        it = m.it
        d = alld(m, st, args, kwargs)
        c, sh = None, None
        ps = [m.arr_parts(st, a) for a in args]
        if ps[0][0] == 1 and name in ("sort", "argsort", "savgol_filter",
                                      "unwrap", "roll", "gradient"):
            sh = ps[0][2]
        kw = set(kwargs)
        if name in ("sort", "argsort"):
            kw -= {"kind", "stable"}      # differ for equal elements only
        if it.terms and not kw and all(p[0] in (0, 1) and
                                       p[1] is not None for p in ps):
            try:
                a = [tm.lam(1, p[1]) if p[0] else p[1](()) for p in ps]
                if name in ("sort", "argsort", "savgol_filter"):
                    a += md.length(ps[0])
                a = tm.afn(name, *a)
                c = lambda i: tm.sel(a, i)
            except tm.TooBig:
                c = None
        dt = "int" if name == "argsort" else None
        if name == "sort":
            dt = ps[0][4]
        rk = 1
        if name in ("argsort", "sort", "roll") and ps[0][0] is not None:
            rk = ps[0][0]
            if rk != 1:
                c = None
                sh = ps[0][2]
        return it.new_array(st, node, c, rk, d, shape=sh, dtype=dt,
                            tag=name)
    return f


def np_roll(m, st, args, kwargs, node):
    it = m.it
    p = m.arr_parts(st, args[0])
    k = args[1].s if len(args) > 1 else kwargs.get("shift", NONE).s
    ax = kwargs.get("axis", args[2] if len(args) > 2 else NONE)
    axis = 0 if p[0] == 1 else m.int_const(ax)
    if k is None or p[0] is None or p[1] is None or p[2] is None or \
            axis is None or not -p[0] <= axis < p[0] or \
            p[2][axis] is None:
        return np_opaque1("roll")(m, st, args, kwargs, node)
    n = p[2][axis]
    r = k.rational
    if r is None:
        lo, hi = tm.bounds(k)
        if lo is not None and lo >= 0:
            pass
        elif hi is not None and hi <= 0:
            k = k + n
        else:
            return np_opaque1("roll")(m, st, args, kwargs, node)
    elif n.rational is not None:
        k = tm.num(r % n.rational if n.rational else 0)
    elif r < 0:
        k = n + k
    axis %= p[0]

    def content(i):
        a, b = list(i), list(i)
        a[axis] = i[axis] - k
        b[axis] = i[axis] - k + n
        return tm.phi(it.decide(tm.ge0(i[axis] - k)), p[1](tuple(a)),
                      p[1](tuple(b)))
    return it.new_array(st, node, models_memo(content), p[0],
                        alld(m, st, args, kwargs), shape=p[2], dtype=p[4],
                        tag="roll")


def models_memo(f):
    from .models import _memo
    return _memo(f)


def np_tile(m, st, args, kwargs, node):
    """repetition along axes of length one"""
    it = m.it
    d = alld(m, st, args, kwargs)
    p = m.arr_parts(st, args[0])
    reps = args[1] if len(args) > 1 else kwargs.get("reps", NONE)
    el = [reps]
    if reps.r:
        el = m.iterate(st, reps, node)[0]
    if el is None or p[0] is None or p[1] is None or p[2] is None or \
            any(x.s is None for x in el) or any(x is None for x in p[2]):
        return it.new_array(st, node, None, None, d, tag="tile")
    ks = [x.s for x in el]
    sh = list(p[2])
    off = len(ks) - len(sh)
    if off < 0:
        ks = [tm.num(1)] * -off + ks
        off = 0
    sh = [tm.num(1)] * off + sh
    one = [s.rational == 1 for s in sh]
    if any(not o and k.rational != 1 for o, k in zip(one, ks)):
        return it.new_array(st, node, None, len(sh), d, tag="tile")

    def content(i):
        return p[1](tuple(tm.num(0) if o else x
                          for o, x in zip(one, i))[off:])
    return it.new_array(st, node, content, len(sh), d, dtype=p[4],
                        shape=tuple(s * k for s, k in zip(sh, ks)),
                        tag="tile")


def np_polyval(m, st, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    p, x = args[0], args[1]
    pp = m.arr_parts(st, p)
    f = None
    if pp[0] == 1 and pp[1] is not None and pp[2] and pp[2][0] is not None \
            and pp[2][0].rational is not None:
        n = int(pp[2][0].rational)
        cs = [pp[1]((tm.num(k),)) for k in range(n)]

        def f(z):
            out = tm.num(0)
            for c in cs:
                out = out * z + c
            return out
    if m.arrish(st, x):
        if f is None:
            q = m.arr_parts(st, x)
            return it.new_array(st, node, None, q[0], d, shape=q[2],
                                tag="pv")
        return m._ew_dep(st, x, node, f, d)
    s = f(x.s) if f is not None and x.s is not None else None
    return unk("num", d, s)


def np_polyfit(m, st, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    deg = m.int_const(args[2]) if len(args) > 2 else m.int_const(
        kwargs.get("deg", NONE))
    a, b = m.arr_parts(st, args[0]), m.arr_parts(st, args[1])
    c = None
    if it.terms and deg is not None and a[0] == 1 and b[0] == 1 and \
            a[1] is not None and b[1] is not None and not set(
                kwargs) - {"deg"}:
        try:
            t = tm.afn("polyfit%d" % deg, tm.lam(1, a[1]), tm.lam(1, b[1]),
                       *(md.length(a) or md.length(b)))
            c = lambda i: tm.sel(t, i)
        except tm.TooBig:
            pass
    sh = (tm.num(deg + 1),) if deg is not None else None
    return it.new_array(st, node, c, 1, d, shape=sh, dtype="float",
                        tag="pf")


def np_meshgrid(m, st, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    outs = []
    parts = [m.arr_parts(st, a) for a in args]
    how = "xy"
    if "indexing" in kwargs:
        how = next(iter(kwargs["indexing"].c), (None, None))[1] \
            if len(kwargs["indexing"].c) == 1 else None
    order = {"xy": (1, 0), "ij": (0, 1)}.get(how)
    known = order is not None and len(args) == 2 and all(
        p[0] == 1 for p in parts) and set(kwargs) <= {"indexing"}
    sh = None
    if known and all(p[2] is not None for p in parts):
        sh = [None, None]
        for k in (0, 1):
            sh[order[k]] = parts[k][2][0]
        sh = tuple(sh)
    for k, p in enumerate(parts):
        c = None
        if known and p[1] is not None:
            c = lambda i, f=p[1], at=order[k]: f((i[at],))
        outs.append(it.new_array(st, node, c, len(args), d, shape=sh,
                                 tag="mg%d" % k))
    return it.new(st, O("list", items=tuple(outs)), node, "mg")


def np_unravel(m, st, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    el, _, _ = m.iterate(st, args[1], node)
    n = len(el) if el is not None else None
    if n is None:
        return it.new(st, O("tuple", items=None, rest=unk("int", d)), node,
                      "ur")
    if kwargs or len(args) > 2:
        return it.new(st, O("tuple", items=(unk("int", d),) * n), node, "ur")
    out, rest = [], args[0]
    for v in el[:0:-1]:
        out.append(m.binop("Mod", rest, v, st, node))
        rest = m.binop("FloorDiv", rest, v, st, node)
    return it.new(st, O("tuple", items=tuple(
        unk("int", x.d | d, x.s) for x in [rest] + out[::-1])), node, "ur")


def np_clip(m, st, args, kwargs, node):
    a = args[0]
    lo = args[1] if len(args) > 1 else kwargs.get("a_min", kwargs.get("min", NONE))
    hi = args[2] if len(args) > 2 else kwargs.get("a_max", kwargs.get("max", NONE))
    v = a
    if lo.c != frozenset([ck(None)]):
        v = elem2(m, st, "max2", [v, lo], node)
    if hi.c != frozenset([ck(None)]):
        ctx = m.it.ctx
        m.it.ctx = ctx + ("clip",)
        v = elem2(m, st, "min2", [v, hi], node)
        m.it.ctx = ctx
    return outparam(m, st, v, kwargs, node)


def np_outer(m, st, args, kwargs, node):
    it = m.it
    p, q = m.arr_parts(st, args[0]), m.arr_parts(st, args[1])
    c = None
    if p[0] == 1 and q[0] == 1 and p[1] is not None and q[1] is not None:
        c = lambda i: p[1]((i[0],)) * q[1]((i[1],))
    sh = None
    if p[0] == 1 and q[0] == 1 and p[2] and q[2]:
        sh = (p[2][0], q[2][0])
    return it.new_array(st, node, c, 2, alld(m, st, args, kwargs), shape=sh,
                        tag="out")


def np_dot(m, st, args, kwargs, node):
    it = m.it
    a, b = args[0], args[1]
    d = alld(m, st, args, {})
    p, q = m.arr_parts(st, a), m.arr_parts(st, b)
    if p[0] == 0 or q[0] == 0:
        return m.binop("Mult", a, b, st, node)
    n = None
    if p[2]:
        n = p[2][-1]
    if n is None and q[2]:
        n = q[2][0 if q[0] == 1 else -2]
    ok = p[1] is not None and q[1] is not None and n is not None and it.terms

    def dot(fa, fb):
        k = tm.bvar()
        return tm.sum_over(tm.as_base(k), fa(k) * fb(k) * tm.ge0(k)
                           * tm.gt0(n - k))
    if p[0] == 1 and q[0] == 1:
        s = dot(lambda k: p[1]((k,)), lambda k: q[1]((k,))) if ok else None
        return unk("num", d, s)
    if p[0] == 2 and q[0] == 2:
        c = None
        if ok:
            c = md._memo(lambda i: dot(lambda k: p[1]((i[0], k)),
                                       lambda k: q[1]((k, i[1]))))
        sh = (p[2][0] if p[2] else None, q[2][1] if q[2] else None)
        return it.new_array(st, node, c, 2, d, shape=sh, tag="dot")
    if p[0] == 2 and q[0] == 1:
        c = None
        if ok:
            c = md._memo(lambda i: dot(lambda k: p[1]((i[0], k)),
                                       lambda k: q[1]((k,))))
        return it.new_array(st, node, c, 1, d, shape=(p[2][0] if p[2]
                                                      else None,), tag="dot")
    return it.new_array(st, node, None, None, d, tag="dot")


def np_delete(m, st, args, kwargs, node):
    p = m.arr_parts(st, args[0])
    return m.it.new_array(st, node, None, p[0], alld(m, st, args, kwargs),
                          dtype=p[4], tag="del")


def np_convolve(m, st, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    p, q = m.arr_parts(st, args[0]), m.arr_parts(st, args[1])
    mode = args[2] if len(args) > 2 else kwargs.get("mode", const("full"))
    mk = next(iter(mode.c))[1] if len(mode.c) == 1 else None
    c = None
    if it.terms and mk and p[0] == 1 and q[0] == 1 and p[1] is not None \
            and q[1] is not None:
        n1 = p[2][0] if p[2] and p[2][0] is not None else "n?"
        n2 = q[2][0] if q[2] and q[2][0] is not None else "n?"
        t = []

        def c(i, t=t, p=p, q=q, n1=n1, n2=n2, mk=mk):
            if not t:
                t.append(tm.afn("convolve:" + mk, tm.lam(1, p[1]), n1,
                                tm.lam(1, q[1]), n2))
            return tm.sel(t[0], i)
    sh = None
    if p[2] and q[2] and p[2][0] is not None and q[2][0] is not None:
        if mk == "valid":
            sh = (tm.absv(p[2][0] - q[2][0]) + 1,)
        elif mk == "same":
            a, b = p[2][0], q[2][0]
            sh = (tm.phi(tm.ge0(a - b), a, b),)
        elif mk == "full":
            sh = (p[2][0] + q[2][0] - 1,)
    return it.new_array(st, node, c, 1, d, shape=sh, dtype="float",
                        tag="cv")


NP = {
    "zeros": np_create(0), "ones": np_create(1), "empty": np_create(None),
    "full": np_create("v"), "zeros_like": np_like(0),
    "ones_like": np_like(1), "empty_like": np_like(None),
    "full_like": np_like("v"), "array": np_array, "copy": np_copy,
    "linspace": np_linspace, "arange": np_arange, "interp": np_interp,
    "where": np_where, "nonzero": np_nonzero,
    "flatnonzero": np_flatnonzero, "vstack": stack("vstack"),
    "hstack": stack("hstack"), "concatenate": stack("concatenate"),
    "stack": stack("stack"), "column_stack": stack("column_stack"),
    "append": np_append, "cumsum": np_cumsum, "diff": np_diff,
    "sort": np_opaque1("sort"), "argsort": np_opaque1("argsort"),
    "gradient": np_opaque1("gradient"), "roll": np_roll, "tile": np_tile,
    "unwrap": np_opaque1("unwrap"), "polyval": np_polyval,
    "polyfit": np_polyfit, "meshgrid": np_meshgrid,
    "unravel_index": np_unravel, "clip": np_clip, "outer": np_outer,
    "dot": np_dot, "matmul": np_dot, "delete": np_delete,
    "convolve": np_convolve,
}


def linalg(m, st, fn, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    if fn == "norm":
        return unk("float", d)
    if fn == "det":
        return unk("num", d)
    p = m.arr_parts(st, args[0])
    n = None
    if p[2] is not None and p[0] and p[0] >= 2 and all(
            x is not None and x.rational is not None for x in p[2][-2:]) \
            and p[2][-1] is p[2][-2] and 0 < p[2][-1].rational <= 12:
        n = int(p[2][-1].rational)

    def inverse(lead, i, j):
        if n == 1:
            return tm.num(1) / p[1](lead + (tm.num(0),) * 2)
        cells = [p[1](lead + (tm.num(a), tm.num(b)))
                 for a in range(n) for b in range(n)]
        return tm.fn("inv", i, j, *cells, real=all(
            x.real for x in cells))
    if fn in ("inv", "pinv"):
        c = None
        if p[0] and p[1] is not None and it.terms:
            rk = p[0]

            def c(i, f=p[1], rk=rk):
                lead = tuple(i[:-2])
                if n is not None and fn == "inv":
                    return inverse(lead, *i[-2:])
                t = tm.afn(fn, tm.lam(2, lambda j: f(lead + tuple(j))),
                           real=False)
                return tm.sel(t, tuple(i[-2:]))
            c = md._memo(c)
        return it.new_array(st, node, c, p[0], d, shape=p[2], dtype=p[4],
                            tag="inv")
    if fn == "solve":
        q = m.arr_parts(st, args[1])
        c = None
        if n is not None and it.terms and None not in (p[1], q[1], q[0]):
            vec = q[0] == 1
            extra = q[0] - p[0]
            if vec or extra == 0:
                def c(i):
                    if vec:
                        lead, k, col = tuple(i[:-1]), i[-1], ()
                    else:
                        lead, k, col = tuple(i[:-2]), i[-2], (i[-1],)
                    out = tm.num(0)
                    for j in range(n):
                        out = out + inverse(lead, k, tm.num(j)) * q[1](
                            (() if vec else lead) + (tm.num(j),) + col)
                    return out
                c = md._memo(c)
        return it.new_array(st, node, c, q[0], d, shape=q[2], tag="slv")
    return it.new_array(st, node, None, None, d, tag="la")


def scipy_call(m, st, fn, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    last = fn.split(".")[-1]
    if fn.startswith("special."):
        if last in ("j0", "j1") and len(args) == 1:
            k = tm.num(int(last[1]))
            f = lambda x: tm.fn("jv", k, x)
        elif last in ("jv", "jn"):
            f = lambda n, x: tm.fn("jv", n, x)
        else:
            f = lambda *a: tm.fn(last, *a)
        if any(m.arrish(st, a) or a.r for a in args):
            return m.elementwise(st, list(args), node, f, tag="sp" + last)
        s = None
        if args and all(a.s is not None for a in args):
            s = f(*[a.s for a in args])
        return unk("any" if any("any" in a.t for a in args) else "num", d, s)
    if last in ("UnivariateSpline", "InterpolatedUnivariateSpline",
                "interp1d", "CubicSpline", "PchipInterpolator",
                "LSQUnivariateSpline", "make_interp_spline",
                "Akima1DInterpolator", "splrep"):
        ex = None
        names = ["x", "y"]
        if it.terms and len(args) >= 2:
            ps = [m.arr_parts(st, a) for a in args[:2]]
            ks = dict(kwargs)
            pos = {"UnivariateSpline": ["w", "bbox", "k", "s", "ext"],
                   "InterpolatedUnivariateSpline": ["w", "bbox", "k", "ext",
                                                    "check_finite"],
                   "interp1d": ["kind", "axis", "copy", "bounds_error"],
                   }.get(last, ["p%d" % i for i in range(9)])
            for nm, a in zip(pos, args[2:]):
                ks[nm] = a
            if last == "InterpolatedUnivariateSpline":
                for nm, dv in (("k", 3), ("ext", 0)):
                    if nm in ks and ks[nm].c == frozenset([ck(dv)]):
                        del ks[nm]
            if all(p[0] == 1 and p[1] is not None for p in ps) and all(
                    v.s is not None for v in ks.values()):
                try:
                    ex = tm.afn("spline:" + last, tm.lam(1, ps[0][1]),
                                tm.lam(1, ps[1][1]), *[
                                    x for k in sorted(ks)
                                    for x in (k, ks[k].s)])
                except tm.TooBig:
                    ex = None
        if ex is None and it.terms:
            ex = tm.mk("atom", (it.fresh_name("spline"),))
        return it.new(st, O("extfn", deps=d, extra=ex), node, "spl")
    if last == "savgol_filter":
        # keyword form is equivalent to positional
        a = list(args)
        kw = dict(kwargs)
        for nm in ("window_length", "polyorder")[max(0, len(a) - 1):]:
            if nm in kw:
                a.append(kw.pop(nm))
        p = m.arr_parts(st, a[0])
        if p[0] == 1:
            return np_opaque1("savgol_filter")(m, st, a, kw, node)
        return it.new_array(st, node, None, p[0], d, shape=p[2], tag="sg")
    if last == "hilbert":
        p = m.arr_parts(st, args[0])
        n = args[1] if len(args) > 1 else kwargs.get("N")
        c = sh = None
        if p[0] == 1 and len(args) <= 2 and set(kwargs) <= {"N"}:
            m0 = p[2][0] if p[2] else None
            n = m0 if n is None or n.c == frozenset([ck(None)]) else n.s
            sh = (n,)
            if it.terms and p[1] is not None and m0 is not None and \
                    n is not None:
                try:
                    t = tm.afn("hilbert", tm.lam(1, p[1]), m0, n, real=False)
                    c = lambda i: tm.sel(t, i)
                except tm.TooBig:
                    pass
        return it.new_array(st, node, c, p[0], d, shape=sh, dtype="complex",
                            tag="hb")
    if last in ("minimize", "minimize_scalar", "fmin", "curve_fit",
                "least_squares", "brentq", "root", "fsolve", "quad"):
        if it.minimum is not None and last == "minimize":
            v = it.minimum(m, st, args, kwargs, node)
            if v is not None:
                return v
        if args and args[0].f:
            extra = kwargs.get("args")
            xs = [it.new_array(st, node, None, 1, d, dtype="float",
                               tag="x0")]
            if extra is not None:
                el, summ, _ = m.iterate(st, extra, node)
                xs += el if el is not None else [summ]
            call_unknown(m, st, args[0], node, xs)
        return it.new(st, O("ext", cls="scipy." + fn, deps=d), node, "opt")
    if last in ("linregress",):
        vs = [unk("float", d) for _ in range(5)]
        if it.terms and len(args) == 2:
            ps = [m.arr_parts(st, a) for a in args]
            if all(p[0] == 1 and p[1] is not None for p in ps):
                try:
                    t = tm.afn("linregress", *[tm.lam(1, p[1]) for p in ps],
                               *(md.length(ps[0]) or md.length(ps[1])))
                    vs = [unk("float", d, tm.sel(t, (tm.num(k),)))
                          for k in range(5)]
                except tm.TooBig:
                    pass
        names = ("slope", "intercept", "rvalue", "pvalue", "stderr")
        return it.new(st, O("inst", cls="linregress",
                            attrs=dict(zip(names, vs)),
                            extra=("fields", names)), node, "lr")
    if fn.startswith("signal.") or fn.startswith("ndimage.") or \
            fn.startswith("integrate.cum") or fn.startswith("fft"):
        p = m.arr_parts(st, args[0])
        return it.new_array(st, node, None, p[0], d, shape=None, tag="sc")
    if fn.startswith("integrate."):
        return reduce_(m, st, "trapz", args, kwargs, node)
    it.event("extdefault", node, name="scipy." + fn)
    a = it.new_array(st, node, None, None, d, tag="sp?")
    return V(t=frozenset(["any"]), r=a.r, d=d)


# -------------------------------------------------------------- plotting
def new_fig(m, st, node, tag="fig"):
    return m.it.new(st, O("fig", attrs={"closed": FALSEV, "saved": FALSEV}),
                    node, tag)


def current_fig(m, st):
    v = st.loc.get((("plt",), "current"))
    return v


def plt_call(m, st, name, args, kwargs, node):
    it = m.it
    fn = name.split(".")[-1]
    d = alld(m, st, args, kwargs)
    if name == "plt.subplots":
        fig = new_fig(m, st, node)
        st.loc[(("plt",), "current")] = fig
        nr = args[0] if args else kwargs.get("nrows", const(1))
        nc = args[1] if len(args) > 1 else kwargs.get("ncols", const(1))
        ax = it.new(st, O("axes", items=(fig,)), node, "axes")
        a, b = m.int_const(nr), m.int_const(nc)
        if (a, b) != (1, 1):
            if a is not None and b is not None and min(a, b) == 1:
                ax = it.new(st, O("tuple", items=(ax,) * max(a, b)), node,
                            "axs")
            else:
                ax = it.new(st, O("list", items=None, rest=ax), node, "axs")
        return it.new(st, O("tuple", items=(fig, ax)), node, "subp")
    if name in ("plt.figure",):
        fig = new_fig(m, st, node)
        st.loc[(("plt",), "current")] = fig
        return fig
    if name == "plt.gcf":
        cur = current_fig(m, st)
        if cur is not None and UNB not in cur.c:
            return cur
        return new_fig(m, st, node)
    if name in ("plt.gca", "plt.axes", "plt.subplot"):
        cur = current_fig(m, st)
        if cur is None or UNB in cur.c:
            cur = new_fig(m, st, node, "cfig")
            st.loc[(("plt",), "current")] = cur
        return it.new(st, O("axes", items=(cur,)), node, "axes")
    if name == "plt.close":
        if not args and not kwargs:
            tgt = current_fig(m, st)
            rs = set(tgt.r) if tgt is not None else set()
            strong = True
        elif args[0].c == frozenset([ck("all")]):
            rs = set(k for k, o in st.heap.items() if o.kind == "fig")
            strong = True
            it.event("closeall", node)
        else:
            rs = set(args[0].r)
            strong = len(rs) == 1
        for r in rs:
            o = st.heap.get(r)
            if o is not None and o.kind == "fig":
                at = dict(o.attrs)
                at["closed"] = TRUEV if strong else join(at["closed"],
                                                         TRUEV)
                st.heap[r] = o.rep(attrs=at)
                if o.origin != "fresh":
                    it.event("mutate", node, origin=o.origin, what="close")
        return NONE
    if name == "plt.savefig":
        cur = current_fig(m, st)
        return save_fig(m, st, cur if cur is not None else unk("any"), args,
                        kwargs, node)
    if name == "plt.show":
        it.event("show", node)
        return NONE
    it.event("pltcall", node, name=name, d=tuple(sorted(map(str, d))))
    if it.draw is not None and fn in (
            "plot", "semilogx", "semilogy", "loglog", "scatter", "step",
            "errorbar", "pcolor", "pcolormesh", "imshow", "xlim", "ylim",
            "annotate", "axis", "setp"):
        it.draw(it, st, None, fn, args, kwargs, node)
    if fn in ("colorbar", "get_cmap", "plot"):
        if fn == "plot" or fn == "colorbar" and not (
                "ax" in kwargs or "cax" in kwargs):
            cur = current_fig(m, st)
            if cur is None or UNB in cur.c:
                st.loc[(("plt",), "current")] = new_fig(m, st, node, "cfig")
    return it.new(st, O("ext", cls=name, deps=d), node, "pl")


def save_fig(m, st, fig, args, kwargs, node):
    it = m.it
    p = args[0] if args else kwargs.get("fname", unk("any"))
    it.event("fs", node, op="write", mode="w", path=strpat.pattern(p),
                 paths=strpat.patterns(p),
             d=tuple(sorted(map(str, it.deps(st, p)))))
    if p.c and all(k[0] == "NoneType" for k in p.c):
        it.event("savenone", node)
    for r in fig.r:
        o = st.heap.get(r)
        if o is not None and o.kind == "fig":
            at = dict(o.attrs)
            at["saved"] = TRUEV if len(fig.r) == 1 else join(at["saved"],
                                                             TRUEV)
            at["savedto"] = p
            st.heap[r] = o.rep(attrs=at)
    return NONE


FSW = {"os.mkdir", "os.makedirs", "os.remove", "os.unlink", "os.rename",
       "os.replace", "os.rmdir", "os.removedirs", "shutil.rmtree",
       "shutil.copy", "shutil.copyfile", "shutil.move", "shutil.copytree",
       "os.symlink", "os.link", "os.truncate", "os.chmod"}


def os_call(m, st, name, args, kwargs, node):
    it = m.it
    d = alld(m, st, args, kwargs)
    if name == "os.path.join" and any(
            a.x is not None and a.x[0] == "ALT" for a in args):
        outs = [[]]
        for a in args:
            outs = [o + [y] for o in outs for y in strpat.alternatives(a)]
        if len(outs) <= 6:
            return joinall([os_call(m, st, name, o, kwargs, node)
                            for o in outs])
    if name == "os.path.join":
        parts = []
        for i, a in enumerate(args):
            if a.c == frozenset([ck(None)]) and not (a.t or a.r or a.f):
                it.event("joinnone", node)
                it.kill(st)
                return BOT
            p = strpat.hole(it, V(a.c - {ck(None)}, a.t, a.r, a.f, a.d,
                                  a._s, a.x), "", st)
            if i:
                parts.append(("L", "/"))
            parts += p
        return strpat.made(parts, d)
    if name in FSW:
        it.event("fs", node, op=name, mode="w",
                 path=strpat.pattern(args[0]) if args else None,
                 paths=strpat.patterns(args[0]) if args else [],
                 d=tuple(sorted(map(str, d))))
        return NONE
    if name in ("os.path.exists", "os.path.isdir", "os.path.isfile"):
        return unk("bool", d | {"fs"})
    if name == "os.path.basename":
        return V(t=frozenset(["str"]), d=d)
    if name in ("os.path.split", "os.path.splitext"):
        a = unk("str", d)
        return it.new(st, O("tuple", items=(a, a)), node, "sp")
    if name.startswith("os.path."):
        return unk("str", d)
    if name in ("os.system", "os.popen", "os.execv", "os.kill", "os._exit",
                "os.abort", "os.fork"):
        it.event("exec", node, name=name,
                 arg=args[0].x or tuple(sorted(map(str, args[0].c)))
                 if args else None)
        return unk("int", d)
    if name in ("os.listdir", "os.walk", "os.scandir"):
        return it.new(st, O("list", items=None, rest=unk("str", d | {"fs"})),
                      node, "ls")
    if name.startswith("os.environ") or name in ("os.getenv", "os.getcwd"):
        if name.split(".")[-1] in ("update", "setdefault", "pop", "clear"):
            it.event("procstate", node, name=name)
        return unk("any", d | {"env"})
    return default(m, st, name, args, kwargs, node)


def re_call(m, st, fn, args, kwargs, node):
    d = alld(m, st, args, kwargs)
    it = m.it
    if fn in ("findall", "split"):
        return it.new(st, O("list", items=None, rest=unk("str", d),
                            extra=("lines", None, 0)), node, "re")
    if fn in ("sub",):
        return unk("str", d)
    v = it.new(st, O("ext", cls="re.match", deps=d), node, "re")
    if fn == "compile":
        return v
    return V(c=frozenset([ck(None)]), r=v.r, d=d)


# -------------------------------------------------------------- methods
def method(m, st, recv, name, args, kwargs, node):
    it = m.it
    outs = []
    killed = 0
    for r in it.each(recv.r):
        o = st.heap.get(r)
        one = V(r=frozenset([r]), d=recv.d)
        if o is None:
            outs.append(unk("any", recv.d))
        elif o.kind == "array":
            outs.append(arr_method(m, st, one, o, name, args, kwargs, node,
                                   len(recv.r) == 1))
        elif o.kind == "list":
            outs.append(list_method(m, st, r, one, name, args, kwargs, node,
                                    len(recv.r) == 1))
        elif o.kind == "dict":
            outs.append(dict_method(m, st, r, one, name, args, kwargs, node,
                                    len(recv.r) == 1))
        elif o.kind == "set":
            if name in ("add", "update", "discard", "remove", "pop",
                        "clear"):
                it.mutate(st, r, node, "set." + name)
                rest = o.rest or BOT
                for x in (o.items or ()):
                    rest = join(rest, x) if rest is not BOT else x
                for a in args:
                    rest = join(rest, a) if rest is not BOT else a
                st.heap[r] = o.rep(items=None, rest=rest)
                outs.append(NONE if name != "pop" else rest)
            else:
                outs.append(V(r=frozenset([r]), d=recv.d))
        elif o.kind == "tuple":
            outs.append(unk("int", alld(m, st, args, kwargs)
                            | it.deps(st, one)))
        elif o.kind == "file":
            outs.append(file_method(m, st, r, o, name, args, kwargs, node))
        elif o.kind == "fig":
            if name == "savefig":
                outs.append(save_fig(m, st, one, args, kwargs, node))
            elif name in ("add_subplot", "gca", "subplots", "add_axes"):
                outs.append(it.new(st, O("axes", items=(one,)), node, "axm"))
            else:
                outs.append(it.new(st, O("ext", cls="fig." + name), node,
                                   "fm"))
        elif o.kind == "axes":
            if it.draw is not None:
                it.draw(it, st, r, name, args, kwargs, node)
            if o.origin != "fresh":
                it.event("axcall", node, name=name)
            if name == "get_figure":
                outs.append(m.fig_of(st, r))
            elif name in ("twinx", "twiny"):
                outs.append(it.new(st, O("axes", items=o.items,
                                         origin=o.origin), node, "tw"))
            else:
                outs.append(it.new(st, O("ext", cls="axes." + name,
                                         deps=EMPTY), node, "axm"))
        elif o.kind == "extfn":
            outs.append(extfn_method(m, st, r, o, name, args, kwargs, node))
        elif o.kind == "ext":
            d = o.deps | alld(m, st, args, kwargs)
            if o.cls and str(o.cls).startswith("logging"):
                it.event("log", node, name=name)
            if name in ("items", "tolist") or True:
                outs.append(unk("any", d))
        else:
            outs.append(unk("any", it.deps(st, one)
                            | alld(m, st, args, kwargs)))
    for k in recv.c:
        if k[0] == "str":
            outs.append(str_method(m, st, V(c=frozenset([k]), d=recv.d),
                                   name, args, kwargs, node))
        elif k[0] == "NoneType":
            it.event("noneattr", node, name=name)
        elif k != UNB:
            outs.append(num_method(m, st, V(c=frozenset([k]), d=recv.d),
                                   name, args, kwargs, node))
    if recv.t:
        v = V(t=recv.t, d=recv.d, s=recv._s, x=recv.x)
        if recv.t <= {"str", FRESHSTR}:
            outs.append(str_method(m, st, v, name, args, kwargs, node))
        else:
            outs.append(num_method(m, st, v, name, args, kwargs, node))
    outs = [v for v in outs if not v.bottom]
    if not outs:
        it.kill(st)
        return BOT
    return joinall(outs)


def num_method(m, st, v, name, args, kwargs, node):
    d = v.d | alld(m, st, args, kwargs)
    if name in ("conjugate", "conj"):
        return V(t=v.t, d=d, s=tm.conj(v.s) if v.s is not None else None)
    if name in ("copy", "item"):
        return V(v.c, v.t, EMPTY, EMPTY, d, v._s, v.x)
    if name in ("max", "min", "sum", "mean") and not (v.t & {"any"}):
        return V(v.c, v.t, EMPTY, EMPTY, d, v._s)
    if name in ("lower", "upper", "strip", "format", "title", "replace"):
        if v.t & {"any"}:
            return unk("str", d)
        m.it.event("badmethod", node, name=name)
        return BOT
    return unk("any", d)


STRPURE = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "title",
           "capitalize", "startswith", "endswith", "isdigit", "isupper",
           "islower", "isalpha", "center", "ljust", "rjust", "zfill",
           "find", "count", "index", "casefold", "swapcase", "isspace",
           "removeprefix", "removesuffix", "expandtabs", "isnumeric",
           "isidentifier", "isdecimal", "isalnum", "rfind"}
STRBOOL = {"startswith", "endswith", "isdigit", "isupper", "islower",
           "isalpha", "isspace", "isnumeric", "isalnum", "isdecimal",
           "isidentifier"}


def str_method(m, st, v, name, args, kwargs, node):
    it = m.it
    d = v.d | alld(m, st, args, kwargs)
    if name == "format":
        return strpat.fmt(it, st, v, args, kwargs)
    if name == "join":
        el, summ, dd = m.iterate(st, args[0], node)
        if el is not None and all(m.stringy(x) for x in el):
            out = const("")
            for i, x in enumerate(el):
                if i:
                    out = strpat.concat(it, out, v)
                out = strpat.concat(it, out, x)
            return out.add(d | dd)
        return unk("str", d | dd)
    if name in STRPURE:
        if v.c and not v.t and all(
                a.c and not (a.t or a.r or a.f) and len(a.c) == 1
                for a in args) and not kwargs:
            out = set()
            for k in v.c:
                try:
                    out.add(ck(getattr(k[1], name)(*[
                        next(iter(a.c))[1] for a in args])))
                except Exception:
                    pass
            if out:
                return V(c=frozenset(out), d=d)
        if name in STRBOOL:
            return unk("bool", d)
        if name in ("find", "count", "index", "rfind"):
            return unk("int", d)
        if FRESHSTR in v.t and name in ("lower", "upper", "strip", "title",
                                        "casefold", "capitalize", "lstrip",
                                        "rstrip"):
            return V(t=frozenset([FRESHSTR]), d=d)
        return unk("str", d)
    if name in ("split", "splitlines", "rsplit", "partition"):
        if v.c and len(v.c) == 1 and not v.t and not kwargs and all(
                a.c and len(a.c) == 1 for a in args):
            try:
                xs = getattr(next(iter(v.c))[1], name)(*[
                    next(iter(a.c))[1] for a in args])
                return it.new(st, O("list", items=tuple(
                    const(x, d) for x in xs)), node, "split")
            except Exception:
                pass
        return it.new(st, O("list", items=None, rest=unk("str", d), deps=d),
                      node, "split")
    if name == "encode":
        return unk("any", d)
    it.event("badmethod", node, name=name)
    if not hasattr(str, name):
        return V()
    return unk("any", d)


def list_method(m, st, r, one, name, args, kwargs, node, strong):
    it = m.it
    o = st.heap[r]
    if name in ("append", "insert", "extend", "pop", "remove", "clear",
                "sort", "reverse"):
        it.mutate(st, r, node, "list." + name)
    if name == "append":
        v = args[0].add(it.pc)
        if o.items is not None and strong and not o.weak and not it.in_fix \
                and len(o.items) < 64:
            st.heap[r] = o.rep(items=o.items + (v,))
        else:
            rest = v
            for x in o.items or ():
                rest = join(rest, x)
            if o.rest is not None and not o.rest.bottom:
                rest = join(rest, o.rest)
            st.heap[r] = o.rep(items=None, rest=rest, extra=None,
                               deps=o.deps | it.pc)
        return NONE
    if name == "extend":
        el, summ, d = m.iterate(st, args[0], node)
        if o.items is not None and el is not None and strong and not o.weak \
                and not it.in_fix and len(o.items) + len(el) < 64:
            st.heap[r] = o.rep(items=o.items + tuple(x.add(it.pc)
                                                     for x in el))
        else:
            rest = summ.add(it.pc | d)
            for x in o.items or ():
                rest = join(rest, x)
            if o.rest is not None and not o.rest.bottom:
                rest = join(rest, o.rest)
            st.heap[r] = o.rep(items=None, rest=rest, extra=None,
                               deps=o.deps | it.pc)
        return NONE
    if name in ("copy",):
        return it.new(st, o.rep(origin="fresh", weak=False), node, "lc")
    if name == "pop":
        if o.items and strong and not o.weak and not it.in_fix:
            k = m.int_const(args[0]) if args else -1
            if k is not None and -len(o.items) <= k < len(o.items):
                items = list(o.items)
                v = items.pop(k)
                st.heap[r] = o.rep(items=tuple(items))
                return v
        rest = o.rest or BOT
        for x in o.items or ():
            rest = join(rest, x) if rest is not BOT else x
        st.heap[r] = o.rep(items=None, rest=rest, extra=None)
        return rest
    if name in ("insert", "remove", "clear", "sort", "reverse"):
        rest = o.rest
        for x in o.items or ():
            rest = x if rest is None else join(rest, x)
        if name == "insert":
            rest = args[1] if rest is None else join(rest, args[1])
        for k in kwargs.values():
            if k.f:
                call_unknown(m, st, k, node, [rest or unk("any")])
        if name == "clear":
            st.heap[r] = o.rep(items=() if strong else None, rest=None
                               if strong else rest)
        else:
            st.heap[r] = o.rep(items=None, rest=rest or BOT, extra=None)
        return NONE
    if name == "index":
        return unk("int", it.deps(st, one) | alld(m, st, args, kwargs))
    if name == "count":
        return unk("int", it.deps(st, one) | alld(m, st, args, kwargs))
    it.event("badmethod", node, name=name)
    return unk("any", it.deps(st, one))


def dict_method(m, st, r, one, name, args, kwargs, node, strong):
    it = m.it
    o = st.heap[r]
    if name in ("update", "pop", "setdefault", "clear", "popitem"):
        it.mutate(st, r, node, "dict." + name)
    if name == "copy":
        return it.new(st, o.rep(origin="fresh", weak=False), node, "dc")
    if name in ("items", "values"):
        return it.new(st, O("iter", items=(one,), extra=(name,)), node, name)
    if name == "keys":
        return one
    if name == "get":
        idx = args[0]
        dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        d = o.deps | one.d | idx.d
        outs = []
        if idx.c and not (idx.t or idx.r or idx.f):
            for k in idx.c:
                if k in o.items:
                    v = o.items[k]
                    if UNB in v.c:
                        v = V(v.c - {UNB}, v.t, v.r, v.f, v.d, v._s, v.x)
                        if o.rest is not None:
                            v = join(v, o.rest) if not v.bottom else o.rest
                        outs.append(dflt)
                    if not v.bottom:
                        outs.append(v)
                else:
                    outs.append(dflt)
                    if o.rest is not None:
                        outs.append(o.rest)
            it.event("dictget", node, key=tuple(sorted(
                str(k[1]) for k in idx.c)))
            if it.watched is not None:
                for k in idx.c:
                    it.watched.append((node, o, k[1], joinall(outs), st))
            return joinall(outs).add(d)
        if idx.t == {FRESHSTR}:
            return (dflt if o.rest is None else join(dflt, o.rest)).add(d)
        vs = [dflt] + list(o.items.values())
        if o.rest is not None:
            vs.append(o.rest)
        v = joinall(vs)
        return V(v.c - {UNB}, v.t, v.r, v.f, v.d | d | it.deps(st, idx))
    if name == "pop":
        v = dict_method(m, st, r, one, "get", args, {}, node, strong) \
            if len(args) > 1 else m.dict_get(st, one, o, args[0], node)
        items = dict(o.items)
        for k in args[0].c:
            if k in items:
                if strong and len(args[0].c) == 1:
                    del items[k]
                else:
                    items[k] = join(items[k], UNBOUND)
        st.heap[r] = st.heap[r].rep(items=items)
        if v.bottom:
            it.kill(st)
        return v
    if name == "setdefault":
        idx, dv = args[0], (args[1] if len(args) > 1 else NONE)
        items = dict(o.items)
        rest = o.rest
        outs = []
        if idx.c and not idx.t:
            for k in idx.c:
                cur = items.get(k)
                if cur is None:
                    new = dv if rest is None else join(dv, rest)
                elif UNB in cur.c:
                    new = join(V(cur.c - {UNB}, cur.t, cur.r, cur.f, cur.d,
                                 cur._s), dv)
                else:
                    new = cur
                if len(idx.c) == 1:
                    items[k] = new.add(it.pc)
                else:
                    items[k] = join(items.get(k, UNBOUND), new)
                outs.append(new)
        else:
            rest = dv if rest is None else join(rest, dv)
            outs.append(rest)
            outs += list(items.values())
        st.heap[r] = o.rep(items=items, rest=rest)
        return joinall(outs)
    if name == "update":
        items = dict(o.items)
        rest = o.rest
        srcs = []
        for a in args:
            srcs.append(m.dict_view(st, a))
        kw = {ck(k): v for k, v in kwargs.items() if k != "**"}
        srcs.append((kw, kwargs.get("**")))
        for it2, r2 in srcs:
            for k, v in it2.items():
                v = v.add(it.pc)
                if UNB in v.c:
                    w = V(v.c - {UNB}, v.t, v.r, v.f, v.d, v._s, v.x)
                    base = items.get(k, UNBOUND)
                    items[k] = join(base, w) if not w.bottom else base
                elif strong and not o.weak:
                    items[k] = v
                else:
                    items[k] = join(items.get(k, UNBOUND), v)
            if r2 is not None:
                for k in items:
                    items[k] = join(items[k], r2)
                rest = r2 if rest is None else join(rest, r2)
        st.heap[r] = o.rep(items=items, rest=rest)
        return NONE
    if name == "clear":
        st.heap[r] = o.rep(items={}, rest=None)
        return NONE
    return unk("any", it.deps(st, one))


def file_method(m, st, r, o, name, args, kwargs, node):
    it = m.it
    at = dict(o.attrs)
    if name == "close":
        at["closed"] = TRUEV
        st.heap[r] = o.rep(attrs=at)
        return NONE
    if name == "write":
        file_write(m, st, r, args, node)
        return unk("int")
    if name == "writelines":
        at["out"] = unk("str", it.deps(st, args[0]))
        st.heap[r] = o.rep(attrs=at)
        return NONE
    if name == "readlines":
        return it.new(st, O("list", items=None, rest=unk("str", o.deps),
                            deps=o.deps, extra=("lines", r, 0)), node, "rl")
    if name in ("read", "readline"):
        return unk("str", o.deps)
    return unk("any", o.deps)


def extfn_method(m, st, r, o, name, args, kwargs, node):
    it = m.it
    if name == "derivative":
        n = args[0] if args else kwargs.get("n", const(1))
        ex = None
        if isinstance(o.extra, tm.T) and n.s is not None:
            ex = tm.afn("deriv", o.extra, n.s)
        return it.new(st, o.rep(extra=ex, origin="fresh"), node, "der")
    if name in ("set_smoothing_factor",):
        it.mutate(st, r, node, name)
        return NONE
    if name == "__call__":
        return m.call_obj(st, r, args, kwargs, node)
    if name in ("get_knots", "get_coeffs", "roots"):
        return it.new_array(st, node, None, 1, o.deps, tag="kn")
    return unk("num", o.deps | alld(m, st, args, kwargs))


def arr_method(m, st, one, o, name, args, kwargs, node, strong):
    it = m.it
    if name == "copy":
        return copy_array(m, st, one, node)
    if name == "astype":
        dt = dtype_of(m, st, args[0] if args else kwargs.get("dtype"))
        old = it.arr_dtype(st, o)
        keep = not (dt == "int" and old != "int") and \
            not (dt in ("float", "int") and old in ("complex",))
        if "copy" in kwargs and kwargs["copy"].c != frozenset([ck(True)]):
            v = copy_array(m, st, one, node, "ast", dt or "", keep)
            return V(r=v.r | one.r, d=v.d)
        v = copy_array(m, st, one, node, "ast", None, keep)
        rid = next(iter(st.heap[next(iter(v.r))].bases))
        st.heap[rid] = st.heap[rid].rep(dtype=dt)
        return v
    if name in ("conj", "conjugate"):
        return elem1(m, st, "conj", [one], {}, node)
    if name == "round":
        return elem1(m, st, "round", [one] + list(args), kwargs, node)
    if name in REDUCE:
        return reduce_(m, st, name, [one] + list(args), kwargs, node)
    if name in VIEWFUN or name == "view":
        if name == "view":
            name = "asarray"
            args = []
        return view_fun(m, st, name, [one] + list(args), kwargs, node)
    if name == "flatten":
        v = view_fun(m, st, "ravel", [one], {}, node)
        return copy_array(m, st, v, node, "fl")
    if name in ("sort", "fill", "resize", "put", "itemset", "partition",
                "setfield", "itemset"):
        val = args[-1] if args and name in ("fill", "put", "itemset") \
            else unk("num", it.deps(st, one))
        if name == "fill":
            m.store_array(st, one, None, val, node, strong)
        else:
            m.store_array(st, one, None, m.it.new_array(
                st, node, None, o.rank, it.deps(st, one)
                | alld(m, st, args, kwargs), tag="srt"), node, False)
        return NONE
    if name == "setflags":
        w = kwargs.get("write") or (args[0] if args else None)
        if w is not None:
            m.set_flag(st, O("flags", bases=o.bases), "writeable", w, node)
        return NONE
    if name == "tolist":
        d = it.deps(st, one)
        ex = None
        c = it.content(st, o)
        if o.rank == 1 and c is not None and o.shape:
            ex = ("lam1", c, o.shape[0])
        rest = unk(it.arr_dtype(st, o) or "num", d)
        if o.rank != 1:
            rest = unk("any", d)
        return it.new(st, O("list", items=None, rest=rest, deps=d,
                            extra=ex), node, "tl")
    if name == "item":
        return unk(it.arr_dtype(st, o) or "num", it.deps(st, one))
    if name in ("dot", "cumsum", "argsort", "nonzero", "clip", "repeat",
                "searchsorted"):
        f = NP.get(name)
        if f is not None:
            return f(m, st, [one] + list(args), kwargs, node)
        return it.new_array(st, node, None, 1 if name != "clip" else o.rank,
                            it.deps(st, one) | alld(m, st, args, kwargs),
                            tag=name)
    if name == "tofile":
        it.event("fs", node, op="write", mode="w",
                 path=strpat.pattern(args[0]),
                 paths=strpat.patterns(args[0]), d=())
        return NONE
    if name in ("tobytes", "tostring", "__array__"):
        return unk("any", it.deps(st, one))
    it.event("badmethod", node, name="ndarray." + name)
    return unk("any", it.deps(st, one))


# --------------------------------------------------------------- views
def view_fun(m, st, name, args, kwargs, node):
    """functions that may return a view of (or the very) argument"""
    it = m.it
    v = args[0]
    outs = []
    rest = V(v.c, v.t, EMPTY, v.f, v.d, v._s)
    scal = bool(v.c or v.t)
    for r in it.each(v.r):
        o = st.heap.get(r)
        one = V(r=frozenset([r]), d=v.d)
        if o is None:
            continue
        if o.kind == "array":
            outs.append(view1(m, st, name, one, o, args, kwargs, node))
        elif o.kind in ("list", "tuple", "range", "iter", "mixed"):
            a = np_array(m, st, [one], {k: x for k, x in kwargs.items()
                                        if k == "dtype"}, node)
            if name not in ("asarray", "asanyarray", "ascontiguousarray",
                            "atleast_1d", "asfarray"):
                o2 = st.heap[next(iter(a.r))]
                a = view1(m, st, name, a, o2, args, kwargs, node)
            outs.append(a)
    if scal:
        if name in ("real", "imag"):
            outs.append(elem1(m, st, "re" if name == "real" else "im",
                              [rest], {}, node))
        elif name in ("asarray", "asanyarray", "asfarray",
                      "ascontiguousarray"):
            part = m.arr_parts(st, rest)
            outs.append(it.new_array(
                st, node, part[1], part[0], v.d,
                shape=part[2] if part[0] is not None else None, tag="as"))
        else:
            s = rest.s
            c = (lambda i, s=s: s) if s is not None else None
            rk = 1 if not rest.t & {"any"} else None
            outs.append(it.new_array(st, node, c, rk, v.d, tag="as",
                                     shape=(tm.num(1),) if rk else None))
    if v.f and not outs:
        d = it.deps(st, v)
        return it.new_array(st, node, None, None, d, tag="as")
    return joinall(outs) if outs else unk("any", v.d)


def view1(m, st, name, one, o, args, kwargs, node):
    it = m.it
    rest = args[1:]
    idep = alld(m, st, rest, kwargs)
    if name in ("asarray", "asanyarray", "asfarray", "ascontiguousarray"):
        if "dtype" in kwargs or rest:
            dt = dtype_of(m, st, kwargs.get("dtype") or rest[0])
            if dt is None or dt == it.arr_dtype(st, o):
                return one
            cp = copy_array(m, st, one, node, "asd", dt)
            return V(r=one.r | cp.r, d=one.d)
        return one
    if name == "atleast_1d":
        if o.rank is not None and o.rank >= 1:
            return one
        if o.rank == 0:
            return reshape(m, st, one, o, (tm.num(1),), node)
        return generic_view(m, st, one, o, None, node, idep)
    if name == "atleast_2d" and o.rank is not None and o.rank >= 2:
        return one
    if name in ("transpose",):
        if o.rank is None:
            return generic_view(m, st, one, o, None, node, idep)
        axes = list(range(o.rank))[::-1]
        if rest or "axes" in kwargs:
            src = kwargs.get("axes") or rest[0]
            el = None
            if src.r:
                el, _, _ = m.iterate(st, src, node)
            elif len(rest) == o.rank:
                el = rest
            ks = [m.int_const(x) for x in el] if el else [None]
            if None in ks:
                return generic_view(m, st, one, o, o.rank, node, idep)
            axes = [k % o.rank for k in ks]
        return permute(m, st, one, o, axes, node)
    if name in ("swapaxes",) and o.rank is not None:
        ks = [m.int_const(x) for x in rest]
        if None not in ks and len(ks) == 2:
            axes = list(range(o.rank))
            a, b = ks[0] % o.rank, ks[1] % o.rank
            axes[a], axes[b] = axes[b], axes[a]
            return permute(m, st, one, o, axes, node)
    if name in ("real", "imag"):
        c = it.content(st, o)
        dt = it.arr_dtype(st, o)
        if name == "real" and dt in ("float", "int"):
            return one
        content = extra = None
        if c is not None:
            f = tm.re if name == "real" else tm.im
            content = lambda i, c=c, f=f: f(c(i))
            extra = o.extra if o.content is not None else (
                "snap", tuple((r, st.heap[r].content) for r in o.bases))
        ob = O("array", bases=o.bases, rank=o.rank, view=None,
               shape=o.shape, deps=o.deps, content=content, extra=extra,
               origin=o.origin)
        return V(r=frozenset([it.alloc(st, ob, node, name)]), d=one.d)
    if name in ("flip", "flipud", "fliplr") and o.rank is not None:
        ax = axis_of(m, args, kwargs)
        if name == "flipud":
            ax = 0
        if name == "fliplr":
            ax = 1
        if ax != "?":
            comps = []
            for k in range(o.rank):
                if ax is None or k == ax % o.rank:
                    comps.append(("slice", None, None, const(-1)))
                else:
                    comps.append(("slice", None, None, None))
            return m.array_get(st, one, o, comps, node)
    if name in ("ravel",):
        if o.rank == 1:
            return one
        order = kwargs.get("order", rest[0] if rest else None)
        if o.rank and (order is None or order.consts() == ["C"]):
            return reshape(m, st, one, o, (tm.num(-1),), node, idep)
        return generic_view(m, st, one, o, 1, node, idep)
    if name == "reshape":
        order = kwargs.get("order")
        shp = rest
        if len(rest) == 1 and rest[0].r:
            el, _, _ = m.iterate(st, rest[0], node)
            shp = el
        if shp is None:
            return generic_view(m, st, one, o, None, node, idep)
        ps = [x.s for x in shp]
        return reshape(m, st, one, o, ps, node, idep)
    if name == "squeeze":
        return generic_view(m, st, one, o, None, node, idep)
    if name == "expand_dims" and o.rank is not None:
        ax = axis_of(m, args, kwargs)
        if isinstance(ax, int):
            ax = ax % (o.rank + 1)
            comps = [("slice", None, None, None)] * o.rank
            comps.insert(ax, NONE)
            return m.array_get(st, one, o, comps, node)
    return generic_view(m, st, one, o, None, node, idep)


def generic_view(m, st, one, o, rank, node, idep=EMPTY):
    """possibly a copy, possibly a view"""
    it = m.it
    ob = O("array", bases=o.bases, rank=rank, view=None, shape=None,
           deps=o.deps | idep, origin=o.origin)
    return V(r=frozenset([it.alloc(st, ob, node, "gv")]), d=one.d)


def permute(m, st, one, o, axes, node):
    it = m.it
    inv = {a: k for k, a in enumerate(axes)}
    v2 = View(tuple(("s", inv[k], None, 1) for k in range(o.rank)))
    return mapped(m, st, one, o, v2, o.rank,
                  tuple(o.shape[a] for a in axes) if o.shape else None, node)


def mapped(m, st, one, o, v2, rank, shape, node):
    it = m.it
    view = content = extra = None
    if o.content is not None:
        c0 = it.content(st, o)
        if c0 is not None:
            content, extra = (lambda i: c0(v2(i))), o.extra
    elif o.view is ip._ident:
        view = v2
    elif isinstance(o.view, View):
        view = md.compose(o.view, v2)
    ob = O("array", bases=o.bases, rank=rank, view=view, shape=shape,
           deps=o.deps, content=content, extra=extra, origin=o.origin)
    return V(r=frozenset([it.alloc(st, ob, node, "pv")]), d=one.d)


def reshape(m, st, one, o, ps, node, idep=EMPTY):
    it = m.it
    n = len(ps)
    if o.rank is None:
        # (k, n) view of an array of unknown rank
        ob = O("array", bases=o.bases, rank=n, view=None,
               shape=tuple(None if (p is None or (p.rational is not None
                           and p.rational < 0)) else p for p in ps),
               deps=o.deps | idep, origin=o.origin)
        return V(r=frozenset([it.alloc(st, ob, node, "rs")]), d=one.d)
    if o.shape is not None:
        # drop or add axes of length one
        src = [i for i in range(o.rank)
               if not (o.shape[i] is not None and o.shape[i].rational == 1)]
        tgt = []
        for i, p in enumerate(ps):
            if p is not None and p.rational == 1:
                continue
            tgt.append(i)
        ok = len(src) == len(tgt)
        if ok:
            wild = 0
            for a, b in zip(src, tgt):
                p, q = o.shape[a], ps[b]
                if q is not None and q.rational == -1:
                    wild += 1
                    continue
                if p is None or q is None or p is not q:
                    ok = False
            if wild > 1:
                ok = False
        if ok:
            ents, m2 = [], dict(zip(src, tgt))
            for i in range(o.rank):
                if i in m2:
                    ents.append(("s", m2[i], None, 1))
                else:
                    ents.append(("i", tm.num(0)))
            sh = [tm.num(1)] * n
            for a, b in zip(src, tgt):
                sh[b] = o.shape[a]
            v = mapped(m, st, one, o, View(tuple(ents)), n, tuple(sh), node)
            return v
        v = row_major(m, st, one, o, ps, node)
        if v is not None:
            return v
    ob = O("array", bases=o.bases, rank=n, view=None,
           shape=tuple(None if (p is None or (p.rational is not None
                       and p.rational < 0)) else p for p in ps),
           deps=o.deps | idep, origin=o.origin)
    return V(r=frozenset([it.alloc(st, ob, node, "rs")]), d=one.d)


def row_major(m, st, one, o, ps, node):
    """known leading axes, the same trailing axes: a view in row-major
    order (its content is a snapshot)"""
    it = m.it
    if not it.terms or not all(b in st.heap for b in o.bases):
        return None
    a, b = list(o.shape), list(ps)
    tail = []
    while a and b and a[-1] is not None and b[-1] is not None and \
            a[-1] is b[-1]:
        tail.insert(0, a.pop())
        b.pop()
    if not a or not all(x is not None and x.rational is not None
                        for x in a):
        return None
    src = [int(x.rational) for x in a]
    total = 1
    for x in src:
        total *= x
    tgt, wild = [], None
    for x in b:
        if x is None or x.rational is None:
            return None
        tgt.append(int(x.rational))
    if sum(1 for x in tgt if x < 0) > 1 or total == 0:
        return None
    known = 1
    for x in tgt:
        if x >= 0:
            known *= x
    if any(x < 0 for x in tgt):
        if known == 0 or total % known:
            return None
        tgt = [total // known if x < 0 else x for x in tgt]
        known = total
    if known != total or total > 400:
        return None
    c0 = it.content(st, o)
    if c0 is None:
        return None

    def split(k, dims):
        out = []
        for x in reversed(dims):
            out.insert(0, tm.num(k % x))
            k //= x
        return out

    def content(i):
        lead, rest = i[:len(tgt)], tuple(i[len(tgt):])
        ks = []
        for k, (x, n) in enumerate(zip(lead, tgt)):
            r = x.rational
            if r is not None:
                ks.append([(int(r), None)] if 0 <= r < n else [])
            elif n == 1:
                ks.append([(0, None)])
            else:
                ks.append([(z, tm.eq0(x - tm.num(z))) for z in range(n)])
        total = tm.num(0)
        for combo in itertools.product(*ks):
            flat = 0
            g = tm.num(1)
            for (z, br), n in zip(combo, tgt):
                flat = flat * n + z
                if br is not None:
                    g = g * br
            total = total + g * c0(tuple(split(flat, src)) + rest)
        return total
    extra = o.extra if o.content is not None else (
        "snap", tuple((r, st.heap[r].content) for r in o.bases))
    ob = O("array", bases=o.bases, rank=len(tgt) + len(tail), view=None,
           shape=tuple(tm.num(x) for x in tgt) + tuple(tail), deps=o.deps,
           content=md._memo(content), extra=extra, origin=o.origin)
    return V(r=frozenset([it.alloc(st, ob, node, "rm")]), d=one.d)


def index(m, st, name, idx, node):
    it = m.it
    if name in ("numpy.r_", "numpy.c_", "numpy.s_", "numpy.mgrid",
                "numpy.ogrid"):
        comps = idx if isinstance(idx, list) else [idx]
        d = m.idx_deps(st, idx)
        if name == "numpy.s_":
            none = const(None)
            out = []
            for n, c in enumerate(comps):
                if isinstance(c, tuple):
                    c = it.new(st, O("slice", items=tuple(
                        x if x is not None else none for x in c[1:])),
                        node, "s_%d" % n)
                elif not isinstance(c, V):
                    return unk("any", d)
                out.append(c)
            if isinstance(idx, list):
                return it.new(st, O("tuple", items=tuple(out)), node, "s_")
            return out[0]
        if name == "numpy.r_":
            new = []
            for n, c in enumerate(comps):
                if not isinstance(c, V) and c[2] is not None and not (
                        c[3] is not None and c[3].s is not None and
                        not c[3].s.real):
                    ctx = it.ctx
                    it.ctx = ctx + (("r_", n),)
                    c = np_arange(m, st, [c[1] or const(0), c[2]] + (
                        [c[3]] if c[3] is not None else []), {}, node)
                    it.ctx = ctx
                new.append(c)
            comps = new
        if name == "numpy.r_" and all(isinstance(c, V) for c in comps):
            t = it.new(st, O("tuple", items=tuple(comps)), node, "r_")
            return stack("concatenate")(m, st, [t], {}, node)
        return it.new_array(st, node, None, 1 if name == "numpy.r_"
                            else None, d, tag="ix")
    return unk("any", m.idx_deps(st, idx))
