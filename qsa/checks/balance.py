"""C16, C17: harmonic balance against its definition."""
from .. import terms as tm
from ..lab import Lab
from ..values import EMPTY, O, const, unk
from .formula import need

HB = "qmix.harmonic_balance."
QT = "qmix.qtcurrent."


def stub(lab):
    """the tunnelling current as an unknown function of the junction voltage,
    the circuit, the response function, the limits and the frequency"""
    it = lab.it

    def bind(names, defaults, args, kwargs):
        out = dict(defaults)
        out.update(zip(names, args))
        out.update(kwargs)
        return out

    def limits(st, v, n):
        ks = None
        if v is None:
            return None
        if len(v.r) == 1 and not v.c:
            o = st.heap[next(iter(v.r))]
            if o.kind in ("tuple", "list") and o.items is not None:
                ks = [x.s for x in o.items]
        elif v.s is not None:
            ks = [v.s] * n
        return ks if ks and None not in ks else None

    def circuit(st, v):
        if v is None or len(v.r) != 1:
            return None
        at = st.heap[next(iter(v.r))].attrs
        if not at or any(k not in at for k in (
                "freq", "vb", "num_f", "num_p", "vb_npts")):
            return None
        nf, npp = (at[k].s.rational for k in ("num_f", "num_p"))
        fr = lab.element(st, next(iter(at["freq"].r)))
        vb = lab.element(st, next(iter(at["vb"].r)))
        if None in (nf, npp, fr, vb):
            return None
        return int(nf), int(npp), [fr[2]((tm.num(k),)) for k in range(
            1, int(nf) + 1)], vb[2], at["vb_npts"].s

    def table(st, cct, resp, nb):
        c = circuit(st, cct)
        if c is None or resp is None:
            return None
        nf, npp, fr, vb, n = c
        ks = limits(st, nb, nf)
        if ks is None:
            return None
        who = tm.atom("resp:" + "/".join(sorted(map(str, resp.r))) +
                      str(sorted(map(str, resp.c))))
        return nf, n, ks, lambda i: tm.fn("rtab", *(
            [who] + ks + list(i[:-1]) + fr + [vb((i[-1],))]), real=False)

    def interpolate(it, c, args, kwargs, st, node):
        a = bind(("cct", "resp", "num_b"), {"num_b": const(15)}, args,
                 kwargs)
        t = table(st, a.get("cct"), a.get("resp"), a.get("num_b"))
        if t is None:
            return unk("any", EMPTY)
        nf, n, ks, f = t
        return it.new_array(st, node, f, nf + 1, EMPTY, shape=tuple(
            2 * k + tm.num(1) for k in ks) + (n,), dtype="complex",
            tag="rtab")

    def current(it, c, args, kwargs, st, node):
        a = bind(("vj", "cct", "resp", "freq_list", "num_b", "verbose",
                  "resp_matrix"), {
                      "num_b": const(15), "verbose": const(True),
                      "resp_matrix": const(None)}, args, kwargs)
        cc = circuit(st, a.get("cct"))
        if cc is None or any(k not in a for k in ("vj", "freq_list")):
            return unk("any", EMPTY)
        nf, npp, fr, vb, n = cc
        t = None
        m = a["resp_matrix"]
        if m.c == frozenset([("NoneType", None)]) and not m.r:
            t = table(st, a["cct"], a.get("resp"), a["num_b"])
            t = t and t[3]
        elif len(m.r) == 1:
            t = lab.element(st, next(iter(m.r)))
            t = t and t[2]
        ks = limits(st, a["num_b"], nf)
        vj = a["vj"]
        e = lab.element(st, next(iter(vj.r))) if len(vj.r) == 1 else None
        fv = a["freq_list"]
        one = fv.s is not None
        if one:
            fs = [fv.s]
        else:
            fs, _, _ = it.models.iterate(st, fv, node)
            fs = fs and [x.s for x in fs]
        if t is None or ks is None or e is None or e[0] != 3 or not fs or \
                None in fs:
            return unk("any", EMPTY)
        fs = [tm.fn("roundn", x, tm.num(4)) for x in fs]

        def value(k, x):
            cells = [e[2]((tm.num(f), tm.num(p), x))
                     for f in range(1, nf + 1) for p in range(1, npp + 1)]
            rows = [t((tm.num(0),) * nf + (x,)),
                    t(tuple(tm.num(1 + z) for z in range(nf)) + (x,))]
            return tm.fn("qtc", *([fs[k]] + ks + cells + rows + fr +
                                  [vb((x,))]), real=False)

        def content(i):
            if one:
                return value(0, i[0])
            r = i[0].rational
            if r is not None:
                return value(int(r) % len(fs), i[1])
            out = tm.num(0)
            for k in range(len(fs)):
                out = out + tm.eq0(i[0] - tm.num(k)) * value(k, i[1])
            return out
        return it.new_array(st, node, content, 1 if one else 2, EMPTY,
                            shape=(n,) if one else (tm.num(len(fs)), n),
                            dtype="complex", tag="qtc")
    it.hooks = {QT + "interpolate_respfn": interpolate,
                QT + "qtcurrent": current}


class Case(object):
    """a circuit with the given numbers of tones and harmonics; impedances,
    sources, frequencies and bias voltages are symbolic"""

    def __init__(self, lab, nf, npp, loud=False):
        self.lab, self.nf, self.npp = lab, nf, npp
        self.st = st = lab.state()
        self.cct = lab.circuit(st, nf, npp)
        self.N = lab.attr(st, self.cct, "vb_npts").s
        lab.masked(st, lab.attr(st, self.cct, "zt"))
        vt = lab.attr(st, self.cct, "vt")
        if loud:
            # sources well above the minimum
            lab.table2(st, vt, {
                (f, p): tm.num(1) + tm.atom("vt%d%d" % (f, p), True, False,
                                            True)
                for f in range(1, nf + 1) for p in range(1, npp + 1)})
        else:
            lab.masked(st, vt)
        self.resp = lab.it.new(st, O("ext", cls="resp", deps=EMPTY),
                               lab.w.node("resp"))
        self.vj = lab.masked(st, lab.array(st, "vj0", 3, True, shape=(
            nf + 1, npp + 1, self.N)))
        self.stop, self.damp = lab.num("stop"), lab.num("damp")
        self.guess = lab.num("guess")

    def limits(self, nb):
        return const(nb) if isinstance(nb, int) else self.lab.seq(
            self.st, "tuple", nb, "nb")

    def solve(self, nb, max_it, mode, initial):
        return self.lab.run(HB + "harmonic_balance", self.st, {
            "cct": self.cct, "resp": self.resp, "num_b": nb,
            "max_it": const(max_it), "stop_rerror": self.stop,
            "vj_initial": self.vj if initial else const(None),
            "damp_coeff": self.damp, "mode": const(mode),
            "verbose": const(False), "zj_guess": self.guess})

    def expected(self, nb, max_it, mode, initial):
        st, v0 = self.st, self.vj
        if not initial:
            st, v0 = self.lab.spec("balance.first_guess", st, [
                self.cct, self.guess])
        return self.lab.spec("balance.balance", st, [
            self.cct, self.resp, nb, const(max_it), self.stop, self.damp,
            v0, const(mode)])


def zero(share):
    """cells that are zero in some points"""
    def at(pt, idx):
        k = tuple(int(round(abs(x))) for x in idx)
        if pt.rnd(("zero", k), integer=True, lo=0, hi=3) < share:
            return 0.
        return None
    return at


def hints():
    base = {"cct.vb_npts": 3}
    out = []
    for stop in (1., 30., 1e-3, 3., .3, 1e3, 2., 5., 8., 12.):
        out.append(dict(base, stop=stop))
    out.append(dict(base, stop=1., **{}))
    out[-1][("cell", "cct.vt")] = zero(2)
    out.append(dict(base, stop=1.))
    out[-1][("cell", "cct.zt")] = zero(2)
    out.append(dict(base, stop=1.))
    out[-1][("cell", "cct.zt")] = zero(4)
    return out


#: tones, harmonics, limits, iterations, sources above the minimum
FLAGS = [(1, 1, 15, 0, False), (2, 1, (3, 4), 0, False),
         (1, 2, 3, 0, False), (2, 2, (3, 4), 0, False),
         (3, 1, 2, 0, False), (4, 1, (1, 2, 3, 4), 0, False),
         (1, 1, 3, 1, False), (2, 1, 3, 1, True), (1, 2, (3,), 1, True),
         (1, 1, 3, 2, True)]
FLAGS_T = [(2, 1, 3, 2, True), (4, 2, 3, 0, False), (1, 3, 2, 1, True),
           (3, 2, 2, 0, False)]
STEPS = [(1, 1, 15, 0, False, False), (2, 2, (3, 4), 0, False, False),
         (1, 1, 3, 1, False, True), (1, 1, 3, 1, True, False),
         (2, 1, (3, 4), 1, True, True), (1, 2, 3, 1, True, True),
         (2, 2, 3, 1, True, True), (1, 1, 3, 2, True, True),
         (3, 1, (1, 2, 3), 1, True, True)]
STEPS_T = [(2, 1, 3, 2, True, True), (1, 3, 2, 1, True, True),
           (4, 1, 2, 1, True, True), (1, 2, 3, 2, True, True)]


def text(nf, npp, nb, it):
    return "%d tone(s), %d harmonic(s), limits %s, max_it=%d" % (
        nf, npp, nb, it)


def begin(rep):
    lab = Lab(rep, unroll=400)
    tm.MAXTERMS = 20000
    stub(lab)
    return lab


def c16(rep, thorough):
    rep.rule = ("harmonic_balance in modes x and m, for the listed numbers "
                "of signals and iterations: voltages, number of iterations, "
                "flag and mask equal those of the written-down loop, for "
                "any circuit, tunnelling current, tolerance and damping")
    lab = begin(rep)

    def one(item):
        nf, npp, nb, it, loud, mode = item
        c = Case(lab, nf, npp, loud)
        nb = c.limits(nb)
        a = c.solve(nb, it, mode, True)
        b = c.expected(nb, it, mode, True)
        lab.same("mode %s, %s" % (mode, text(*item[:4])), *(a + b),
                 hints=hints())
    todo = FLAGS + (FLAGS_T if thorough else [])
    lab.spread([x + (m,) for x in reversed(todo) for m in "xm"], one)
    need(rep, "comparisons", 10)


def c17(rep, thorough):
    rep.rule = ("harmonic_balance in mode o and check_hb_error, for the "
                "listed numbers of signals and iterations: the voltages "
                "equal those of Newton's method with the written-down "
                "residual, and check_hb_error raises exactly when that "
                "residual misses the tolerance")
    lab = begin(rep)

    def one(item):
        if len(item) == 3:
            return judged(item)
        nf, npp, nb, it, loud, initial = item
        c = Case(lab, nf, npp, loud)
        nb = c.limits(nb)
        a = c.solve(nb, it, "o", initial)
        b = c.expected(nb, it, "o", initial)
        lab.same("voltages, %s, %s" % (
            text(*item[:4]), "given start" if initial else "own start"),
            *(a + b), hints=hints())

    def judged(item):
        nf, npp, nb = item
        c = Case(lab, nf, npp)
        nb = c.limits(nb)
        key = "check_hb_error, " + text(nf, npp, item[2], 0)
        lab.run(HB + "check_hb_error", c.st, {
            "vj_check": c.vj, "cct": c.cct, "resp": c.resp, "num_b": nb,
            "stop_rerror": c.stop})
        t = lab.raises("AssertionError")
        st, v = lab.spec("balance.exceeded", c.st, [
            c.vj, c.cct, c.resp, nb, c.stop])
        lab.rep.count("comparisons")
        if t is None:
            lab.rep.undec(key + " (condition not understood)")
            return
        r, why = lab.terms(t, v.s, hints(), "raises AssertionError")
        if r is False:
            lab.rep.finding(key, "raises under another condition: " + why)
        elif r is None:
            lab.rep.undec("%s (%s)" % (key, why))
        else:
            lab.rep.count("decided")
    todo = STEPS + (STEPS_T if thorough else [])
    lab.spread(list(reversed(todo)) + [
        (1, 1, 15), (2, 1, 3), (1, 2, (3,)), (2, 2, (3, 4)), (3, 1, 2)], one)
    need(rep, "comparisons", 10)


CHECKS = {"C16": c16, "C17": c17}
