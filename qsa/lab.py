"""Run the package and a written-down specification through the same value
numbering and compare the resulting terms."""
import ast
import itertools
import os
import signal
import traceback

from . import interp
from . import models
from . import terms as tm
from .drive import Drive
from .entries import World
from .evalterm import compare, Undefined
from .project import AnalysisBroken, Module, Project
from .values import EMPTY, O, V, const, join, unk

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")


def project():
    p = Project()
    for fn in sorted(os.listdir(SPEC)):
        if not fn.endswith(".py"):
            continue
        path = os.path.join(SPEC, fn)
        with open(path) as fin:
            tree = ast.parse(fin.read(), path)
        name = "spec_" + fn[:-3]
        for n in ast.walk(tree):
            n._mod = name
        p.modules[name] = Module(name, path, tree, False)
    return p


class Lab(object):
    def __init__(self, rep, setup=None, unroll=None):
        self.rep = rep
        if unroll:
            interp.MAXUNROLL = unroll
        models.STRICT_NUM[0] = 1      # a number is no array of rank zero
        self.w = World(terms=True, project=project(), setup=setup)
        self.it = self.w.it
        self.d = Drive(self.w)
        self.cls = {n: (k, c) for n, k, c in self.d.entries}
        self.ncmp = 0
        self.limit = 60           # seconds per case
        self.rounds = None        # points per hint
        self.split = 2000         # cells that are compared one by one

    def spread(self, items, fn):
        """fn(item) for all items in several processes, results merged into
        the report"""
        from .check import Report
        from .par import par
        top = self.rep

        limit = self.limit if top.tier == "quick" else 400

        def one(item):
            self.rep = sub = Report(top.pid, top.tier)

            def late(*a):
                raise TimeoutError("%d s" % limit)
            signal.signal(signal.SIGALRM, late)
            signal.alarm(limit)
            try:
                fn(item)
            except AnalysisBroken:
                raise
            except Exception as e:
                # nothing is known about this case
                traceback.print_exc()
                sub.count("comparisons")
                sub.undec("case %r: %s %s" % (item, type(e).__name__, e))
            finally:
                signal.alarm(0)
            return sub.findings, sub.counts, sub.undecided
        for findings, counts, undecided in par(one, items):
            for k, v in findings.items():
                top.finding(k, v)
            for k, v in counts.items():
                top.count(k, v)
            for u in undecided:
                top.undec(u)
        self.rep = top

    # ---------------------------------------------------------- inputs
    def state(self):
        return self.w.state()

    def num(self, name, kind="num", **kw):
        """a named number; kw of terms.atom"""
        if kw:
            s = tm.atom(name, kw.get("real", True), kw.get("integer", False),
                        kw.get("pos", False))
        else:
            s = self.w.sym(name, kind)
        return unk(kind, frozenset([name]), s)

    def array(self, st, name, rank=1, cplx=False, shape=None):
        v = self.w.array(st, name, rank, cplx)
        if shape is not None:
            shape = tuple(tm.lift(x) for x in shape)
            for oid in v.r:
                o = st.heap[oid]
                for b in o.bases:
                    st.heap[b] = st.heap[b].rep(shape=shape)
                st.heap[oid] = o.rep(shape=shape)
        return v

    def made(self, st, content, rank=1, shape=None, dtype=None):
        """an array with the given content"""
        return self.it.new_array(st, self.w.node("made"), content, rank,
                                 EMPTY, shape=shape, dtype=dtype, tag="mk")

    def seq(self, st, kind, values, tag=""):
        """a list or tuple of constants or values"""
        vals = tuple(x if isinstance(x, V) else const(x) for x in values)
        return self.it.new(st, O(kind, items=vals, rest=None, deps=EMPTY),
                           self.w.node("seq" + kind + tag))

    def numbers(self, st, values, tag="numbers"):
        """a one-dimensional array of known numbers"""
        values = tuple(values)

        def content(idx):
            r = idx[0].rational
            if r is not None and 0 <= r < len(values):
                return tm.num(values[int(r)])
            out = tm.num(0)
            for n, x in enumerate(values):
                out = out + tm.eq0(idx[0] - tm.num(n)) * tm.num(x)
            return out
        return self.it.new_array(st, self.w.node(tag), content, 1, EMPTY,
                                 shape=(tm.num(len(values)),),
                                 dtype="float", tag="nb")

    def frequencies(self, st, cct, values):
        """give the circuit known frequencies (the first one is not used)"""
        fr = self.numbers(st, values, "freq")
        for oid in cct.r:
            o = st.heap[oid]
            at = dict(o.attrs)
            at["freq"] = fr
            st.heap[oid] = o.rep(attrs=at)
        return fr

    def attr(self, st, v, name):
        return st.heap[next(iter(v.r))].attrs[name]

    def circuit(self, st, num_f=1, num_p=1, label="cct", **kw):
        a = {"num_f": const(num_f), "num_p": const(num_p),
             "vb_npts": unk("int", EMPTY,
                            tm.atom(label + ".vb_npts", True, True, True)),
             "vgap": self.num("vgap"), "rn": self.num("rn")}
        a.update(kw)
        a = {k: v for k, v in a.items() if v is not None}
        v = self.w.built(st, "qmix.circuit.EmbeddingCircuit", a, label)
        # counts stay what they are
        for r in v.r:
            o = st.heap[r]
            at = dict(o.attrs)
            for k, x in (("num_f", num_f), ("num_p", num_p),
                         ("num_n", num_f * num_p)):
                if k in at:
                    at[k] = const(x)
            for k in ("freq", "vt", "zt", "vb"):
                for oid in at[k].r:
                    ob = st.heap[oid]
                    n = (tm.num(num_f + 1), tm.num(num_p + 1))[:ob.rank] \
                        if k != "vb" else (at["vb_npts"].s,)
                    for b in ob.bases:
                        st.heap[b] = st.heap[b].rep(shape=n)
                    st.heap[oid] = ob.rep(shape=n)
            st.heap[r] = o.rep(attrs=at)
        return v

    # ---------------------------------------------------------- running
    def dc(self, st, label, rows, rseries):
        """DC I-V metadata: independent numbers and curves"""
        v = self.w.dciv(st, label)
        for r in v.r:
            o = st.heap[r]
            at = dict(o.attrs)
            for k in at:
                n = "%s.%s" % (label, k)
                if k in ("vraw", "iraw", "vnorm", "inorm"):
                    at[k] = self.array(st, n, shape=(rows,))
                elif k == "offset":
                    at[k] = self.seq(st, "tuple", [
                        self.num(n + ".v"), self.num(n + ".i")], n)
                elif k == "rseries":
                    at[k] = rseries
                else:
                    at[k] = self.num(n, pos=k in ("vgap", "igap", "fgap"))
            st.heap[r] = o.rep(attrs=at)
        return v

    def run(self, name, st, args=None, selfv=None, opts=False, kw=None):
        """(state, value); value None if the call never returns"""
        kind, cls = self.cls.get(name, (None, None))
        if kind is None:
            raise AnalysisBroken("%s is gone" % name)
        st = st.copy()
        extra = {} if selfv is None else {"selfspec": selfv}
        self.it.thrown = []
        it = self.it
        saved = (it.pc, list(it.frames), list(it.stack), it.ctx, it.cur,
                 it.paths, it.in_try, it.in_fix)
        try:
            r = self.d.run(name, kind, cls, st=st, args=args or {},
                           opts=opts, extra_kw=kw, **extra)
        except (AnalysisBroken, TimeoutError):
            raise
        except Exception:
            # the analysis cannot cope with this code: nothing is known
            traceback.print_exc()
            (it.pc, it.frames, it.stack, it.ctx, it.cur, it.paths,
             it.in_try, it.in_fix) = saved
            self.rep.count("internal_errors")
            it.thrown = [(None, "?")]
            return st, unk("any")
        finally:
            self.thrown, self.it.thrown = self.it.thrown, None
        self.last = r
        return r.st, (None if r.dead else r.value)

    def spec(self, name, st, args=(), kw=None):
        st = st.copy()
        it = self.it
        cv = it.lookup_public("spec_" + name)
        saved = (it.pc, list(it.frames), list(it.stack), it.ctx,
                 list(it.guard_hits))
        try:
            v = it.call(cv, list(args), dict(kw or {}), st,
                        self.w.node("spec:" + name))
        finally:
            it.pc, it.frames, it.stack, it.ctx = saved[:4]
        if it.dead(st):
            raise AnalysisBroken("specification %s never returns" % name)
        return st, v

    def raises(self, name):
        """the condition under which the last run raised the exception
        ``name``, None if it is not understood"""
        out = tm.num(1)
        for t, nm in self.thrown:
            if t is None or nm != name:
                return None
            out = out * tm.lnot(t)
        return tm.lnot(out)

    def masked(self, st, v, unused=None, axes=2):
        """rows and columns number zero of an array hold ``unused``"""
        for oid in v.r:
            for b in st.heap[oid].bases:
                c = st.heap[b].content

                def content(i, c=c):
                    g = tm.num(1)
                    for x in i[:axes]:
                        g = g * tm.lnot(tm.eq0(x))
                    return tm.phi(g, c(i), tm.num(0))
                st.heap[b] = st.heap[b].rep(content=content)
        return v

    def table2(self, st, v, cells):
        """a two-dimensional array of known numbers and atoms"""
        def content(i):
            out = tm.num(0)
            for (a, b), x in cells.items():
                out = out + tm.eq0(i[0] - tm.num(a)) * \
                    tm.eq0(i[1] - tm.num(b)) * x
            return out
        for oid in v.r:
            for b in st.heap[oid].bases:
                st.heap[b] = st.heap[b].rep(content=content)
        return v

    # ---------------------------------------------------------- comparing
    def any_term(self, st, v):
        """a term in which everything about the value occurs, or None"""
        if v is None:
            return None
        if v.s is not None:
            return v.s
        if len(v.r) == 1:
            e = self.element(st, next(iter(v.r)))
            if e is not None:
                try:
                    return e[2](tuple(tm.bvar() for _ in range(e[0])))
                except tm.TooBig:
                    return None
        return None

    def sampling(self, t):
        """the index functions with which a spline's points were selected"""
        out = []
        for s in tm.subterms(t) if t is not None else ():
            if s.op != "afn" or not s.args[0].startswith("spline:"):
                continue
            for a in s.args[1:3]:
                if a.op != "lam" or a.args[0] != 1:
                    continue
                k = tm._ldb(a.args[1], 0)
                for q in tm.subterms(a.args[2]):
                    if q.op == "sel" and q.args[0].op == "arr" and \
                            q.args[0].args[0][:1] == "?" and \
                            len(q.args[1]) == 1 and \
                            tm.as_base(q.args[1][0]) is k:
                        arr = q.args[0]
                        if arr not in out:
                            out.append(arr)
        return [lambda i, a=a: tm.sel(a, i) for a in out]

    def element(self, st, oid):
        """(rank, shape, index -> term) of an array object or None"""
        o = st.heap[oid]
        if o.kind != "array" or o.rank is None:
            return None
        c = self.it.content(st, o)
        if c is None:
            return None
        return o.rank, o.shape, c

    def same(self, key, st1, v1, st2, v2, hints=None, what=None):
        """compare program value v1 with specified value v2; reports a
        finding ``key`` when they differ"""
        self.ncmp += 1
        self.rep.count("comparisons")
        try:
            res, why = self.cmp(st1, v1, st2, v2, hints or [], "result")
        except (AnalysisBroken, TimeoutError):
            raise
        except Exception as e:
            traceback.print_exc()
            self.rep.count("internal_errors")
            res, why = None, "%s %s" % (type(e).__name__, e)
        if res is False:
            self.rep.finding(key, (what or "value differs from the "
                                   "specification") + ": " + why)
        elif res is None:
            self.rep.undec("%s (%s)" % (key, why))
        else:
            self.rep.count("decided")
        return res

    def cmp(self, s1, v1, s2, v2, hints, path):
        if v1 is None:
            return False, path + " never returns"
        a, b = v1.s, v2.s
        if b is None and not v2.r:
            # constants, strings, None
            if v1.c == v2.c and not (v1.t or v2.t or v1.r):
                return True, ""
            if len(v1.c) == 1 and len(v2.c) == 1 and not (
                    v1.t or v2.t or v1.r or v1.f):
                return False, "%s is %s, expected %s" % (
                    path, next(iter(v1.c))[1], next(iter(v2.c))[1])
            if v1.x is not None and v1.x == v2.x:
                return True, ""
            return None, path + " not understood"
        if b is not None and not v2.r:
            e = None
            if a is None and len(v1.r) == 1 and not v1.t and not v1.c:
                e = self.element(s1, next(iter(v1.r)))
                if e is not None and e[0] == 0:
                    a = e[2](())
            if a is None:
                if v1.c == frozenset([("NoneType", None)]) and not v1.r \
                        and not v1.t:
                    return False, path + " is None"
                return None, path + " not understood"
            return self.terms(a, b, hints, path)
        if len(v2.r) != 1:
            return None, path + " specification unclear"
        o2 = s2.heap[next(iter(v2.r))]
        if v1.c == frozenset([("NoneType", None)]) and not (v1.r or v1.t
                                                             or v1.f):
            return False, path + " is None"
        if len(v1.r) != 1 or v1.t or v1.c:
            return None, path + " not understood"
        o1 = s1.heap[next(iter(v1.r))]
        if o2.kind in ("tuple", "list"):
            if o1.kind not in ("tuple", "list") or o1.items is None \
                    or o2.items is None:
                return None, path + " not understood"
            if len(o1.items) != len(o2.items):
                return False, "%s has %d items, expected %d" % (
                    path, len(o1.items), len(o2.items))
            out, msg = True, ""
            for n, (x, y) in enumerate(zip(o1.items, o2.items)):
                r, w = self.cmp(s1, x, s2, y, hints, "%s[%d]" % (path, n))
                if r is False:
                    return False, w
                if r is None and out is True:
                    out, msg = None, w
            return out, msg
        if o2.kind == "dict" and o2.rest is None:
            # {attribute name: value} describes (part of) an object
            out, msg = True, ""
            for k, y in o2.items.items():
                if o1.kind == "dict":
                    x = (o1.items or {}).get(k)
                else:
                    x = (o1.attrs or {}).get(k[1])
                if x is None:
                    return None, "%s.%s not found" % (path, k[1])
                r, w = self.cmp(s1, x, s2, y, hints, path + "." + k[1])
                if r is False:
                    return False, w
                if r is None and out is True:
                    out, msg = None, w
            return out, msg
        if o2.kind != "array" or o1.kind != "array":
            return None, path + " not understood"
        e1 = self.element(s1, next(iter(v1.r)))
        e2 = self.element(s2, next(iter(v2.r)))
        if o1.rank is not None and o2.rank is not None and \
                o1.rank != o2.rank:
            return False, "%s has %d dimensions, expected %d" % (
                path, o1.rank, o2.rank)
        if e2 is None:
            return None, path + " specification not understood"
        if e1 is None:
            return None, path + " content not understood"
        sh = e2[1]
        if e1[1] is not None and sh is not None:
            for k, (x, y) in enumerate(zip(e1[1], sh)):
                if x is None or y is None:
                    continue
                r, w = self.terms(x, y, hints, "%s.shape[%d]" % (path, k))
                if r is False:
                    return r, w
        # every cell of small known dimensions on its own
        known = [None] * e2[0]
        cells = 1
        if sh is not None and e2[0] > 1:
            for n in sorted((n for n in range(e2[0]) if sh[n] is not None
                             and sh[n].rational is not None),
                            key=lambda n: sh[n].rational):
                r = int(sh[n].rational)
                if r < 1 or cells * r > self.split:
                    break
                cells *= r
                known[n] = range(r)
        if any(known):
            out, msg = True, ""
            for at in itertools.product(*[k or (None,) for k in known]):
                r, w = self.cell(e1, e2, at, sh, hints, "%s[%s]" % (
                    path, ",".join("*" if x is None else str(x)
                                   for x in at)))
                if r is False:
                    return r, w
                if r is None and out is True:
                    out, msg = r, w
            return out, msg
        return self.cell(e1, e2, [None] * e2[0], sh, hints, path)

    def cell(self, e1, e2, at, sh, hints, path):
        """compare the elements at ``at`` (None: at any index)"""
        iv = [tm.bvar(hint="k") if x is None else tm.num(x) for x in at]
        bases = [tm.as_base(x) for k, x in zip(at, iv) if k is None]

        def value(n, cands):
            def f(pt):
                m = None
                if sh is not None and sh[n] is not None:
                    m = pt.p(sh[n])
                    m = int(round(m.real if isinstance(m, complex) else m))
                if m is None:
                    m = 3
                if m <= 0:
                    m = 1
                pt.nth = getattr(pt, "nth", 0) + 1
                k = pt.rnd(("index", n, pt.nth), integer=True, lo=0,
                           hi=1000003)
                if cands and pt.rnd(("pin", n), integer=True, lo=0,
                                     hi=1):
                    # an index for which one of the conditions holds
                    zs = []
                    for c in cands:
                        try:
                            z = pt.p(c)
                        except Undefined:
                            continue
                        z = z.real if isinstance(z, complex) else z
                        if abs(z - round(z)) < 1e-9 and 0 <= round(z) < m:
                            zs.append(int(round(z)))
                    if zs:
                        return zs[k % len(zs)]
                q = k % 4
                if q == 0:
                    return 0
                if q == 1:
                    return m - 1
                return (k // 4) % m
            return f
        try:
            a, b = e1[2](tuple(iv)), e2[2](tuple(iv))
        except tm.TooBig:
            return None, path + " too big"
        if a is None or b is None:
            return None, path + " content not understood"
        pins = {x: set() for x in bases}
        for t in list(tm.subterms(a)) + list(tm.subterms(b)):
            if t.op == "br" and t.args[0] == "eq":
                q = t.args[1]
                for x in bases:
                    k = tm.coef_of(q, x)
                    if k:
                        z = tm.lift(x) - q * tm.num(1 / k)
                        if not z._fv:
                            pins[x].add(z)
        return self.terms(a, b, hints, path, {
            x: value(n, sorted(pins[x], key=lambda z: z.id))
            for x, n in zip(bases, [k for k in range(len(at))
                                    if at[k] is None])})

    def terms(self, a, b, hints, path, free=None):
        try:
            r, w = compare(a, b, hints, self.rounds, free)
        except (tm.TooBig, RecursionError):
            return None, path + " too big"
        if r is False:
            return False, "%s = %s, expected %s (e.g. %s instead of %s)" % (
                path, tm.show(a, 160), tm.show(b, 160), short(w[0]),
                short(w[1]))
        if r is None:
            return None, path + " not comparable"
        return True, ""


def short(x):
    if isinstance(x, (str, Exception)):
        return str(x)              # no number
    if isinstance(x, complex):
        if abs(x.imag) < 1e-9 * abs(x):
            x = x.real
        else:
            return "%.6g%+.6gj" % (x.real, x.imag)
    return "%.6g" % x
