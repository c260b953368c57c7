"""C18-C21: handling of measured data."""
import math
from .. import terms as tm
from ..lab import Lab
from ..values import EMPTY, O, const, unk
from .formula import need

CLEAN = "qmix.exp.clean_data."


def c18(rep, thorough):
    rep.rule = ("cleaning functions, gauss_conv, slope and slope_span_n: "
                "every point of the result equals the written-down one; "
                "check=True raises exactly for unsorted data")
    lab = Lab(rep)
    st = lab.state()
    n = tm.atom("npts", True, True, True)
    tm.bound(n, 40)
    x = lab.array(st, "x", shape=(n,))
    y = lab.array(st, "y", shape=(n,))
    m = lab.array(st, "m", 2, shape=(n, tm.num(2)))
    few = tm.atom("few", True, True, True)
    short = lab.array(st, "z", shape=(few,))
    base = {"npts": 43, ("br", "isnan"): holes}
    hints = [base, dict(base, **{"npts": 17})]
    for k in ("x", "m"):
        hints.append(dict(base, **{"npts": 11}))
        hints[-1][("cell", k)] = steps
    rise = [dict(base, **{"npts": 11}), dict(base)]
    for h in rise:
        h[("cell", "x")] = h[("cell", "m")] = sorted_steps
    for k in (0, 1):
        rise.append(dict(base, **{"npts": 11}))
        rise[-1][("cell", "m")] = sorted_column(k)

    def one(name, args, spec, sargs, hints=hints, key=None):
        a = lab.run(name, st, args)
        b = lab.spec("cleaning." + spec, st, sargs)
        lab.same(key or name.split(".")[-1], *(a + b), hints=hints)

    def refuses(key, term, hints=hints + rise):
        t = lab.raises("AssertionError")
        rep.count("comparisons")
        if t is None:
            rep.undec(key + " (condition not understood)")
            return
        r, why = lab.terms(t, term, hints, "raises AssertionError")
        if r is False:
            rep.finding(key, "raises under another condition: " + why)
        elif r is None:
            rep.undec("%s (%s)" % (key, why))
        else:
            rep.count("decided")
    xy = {"x": x, "y": y}
    one(CLEAN + "remove_nans_xy", xy, "keep_finite", [x, y])
    one(CLEAN + "sort_xy", xy, "sort", [x, y])
    one(CLEAN + "clean_xy", xy, "clean", [x, y])
    one(CLEAN + "xy_to_matrix", xy, "columns", [x, y])
    one(CLEAN + "matrix_to_xy", {"matrix": m}, "split", [m])
    one(CLEAN + "remove_nans_matrix", {"mat": m}, "keep_finite_rows", [m])
    one(CLEAN + "clean_matrix", {"matrix": m}, "clean_rows", [m])
    for c in (0, 1):
        col = const(c)
        one(CLEAN + "sort_matrix", {"matrix": m, "col": col}, "sort_rows",
            [m, col], key="sort_matrix, column %d" % c)
    for chk in (True, False):
        text = "check" if chk else "no check"
        one(CLEAN + "remove_doubles_xy", dict(xy, check=const(chk)),
            "no_doubles", [x, y], hints + rise,
            "remove_doubles_xy, " + text)
        refuses("remove_doubles_xy, %s: error" % text, lab.spec(
            "cleaning.unsorted", st, [x])[1].s if chk else tm.FALSE)
        for c in (0, 1):
            col = const(c)
            key = "remove_doubles_matrix, column %d, %s" % (c, text)
            one(CLEAN + "remove_doubles_matrix", {
                "matrix": m, "col": col, "check": const(chk)},
                "no_double_rows", [m, col], hints + rise, key)
            refuses(key + ": error", lab.spec(
                "cleaning.unsorted_rows", st, [m, col])[1].s
                if chk else tm.FALSE)
    one("qmix.mathfn.misc.slope", xy, "derivative", [x, y])
    todo = [(2., 3., 6), (1., 3., 3), (1.5, 2., 3), (3, 1, 3), (.5, 3., 1),
            (.7, 3., 2), (2.3, 2., 4), (3.9, 1., 3)]
    if thorough:
        todo += [(4., 3., 12), (1.9, 5., 9), (2, 4, 8)]
    for sigma, ext, half in todo:
        key = "gauss_conv, sigma %g, ext_x %g" % (sigma, ext)
        one("qmix.mathfn.filters.gauss_conv", {
            "x": x, "sigma": const(sigma), "ext_x": const(ext)}, "smooth",
            [x, const(sigma), const(half)], [base, dict(base, npts=27)], key)
        lab.run("qmix.mathfn.filters.gauss_conv", st, {
            "x": short, "sigma": const(sigma), "ext_x": const(ext)})
        refuses(key + ": error", tm.gt0(tm.num(2 * half + 1) - few),
                [dict(base, few=2 * half + k) for k in (0, 1, 2, 9)])
    span(lab, st, x, y, [3, 5],
         hints[:2])
    need(rep, "comparisons", 20)


def holes(pt, k):
    """some values are missing"""
    return pt.rnd(("nan", k), integer=True, lo=0, hi=5) == 0


def steps(pt, idx):
    """unsorted, with double values"""
    return pt.rnd(("steps",) + idx, integer=True, lo=0, hi=7) * .5


def sorted_steps(pt, idx):
    n = int(round(abs(idx[0])))
    return .5 * sum(pt.rnd(("rise", k), integer=True, lo=0, hi=2)
                    for k in range(n))


def sorted_column(col):
    def at(pt, idx):
        return (sorted_steps if round(abs(idx[1])) == col else steps)(
            pt, idx)
    return at


def span(lab, st, x, y, spans, hints):
    f = "qmix.mathfn.misc.slope_span_n"
    a, b = lab.num("a"), lab.num("b")
    for n in spans:
        n = const(n)
        k = "slope_span_n, n=%d" % next(iter(n.c))[1]
        for z in (True, False):
            s1, r = lab.run(f, st, {"x": x, "y": y, "n": n,
                                    "nozeros": const(z)})
            if r is not None:
                s1, r = lab.spec("cleaning.inner", s1, [r, n])
            s2 = lab.spec("cleaning.wide", st, [x, y, n, const(z)])
            lab.same("%s%s" % (k, ", nozeros" if z else ""), s1, r, *s2,
                     hints=hints)
        s2, line = lab.spec("cleaning.line", st, [x, a, b])
        s1, r = lab.run(f, s2, {"x": x, "y": line, "n": n,
                                "nozeros": const(False)})
        lab.same(k + ", straight line", s1, r, *lab.spec(
            "cleaning.level", s2, [x, a]), hints=hints)


IV = "qmix.exp.iv_data."
UNITS = {"V": 1., "mV": 1e-3, "uV": 1e-6}
AMPS = {"A": 1., "mA": 1e-3, "uA": 1e-6}


class Rig(object):
    """options of a measurement"""

    def __init__(self, lab, vfmt="mV", ifmt="uA", filt=False, rs=False,
                 offset=True):
        self.lab = lab
        self.st = st = lab.state()
        self.rows = tm.atom("rows", True, True, True)
        self.npts = unk("int", frozenset(["npts"]),
                        tm.atom("npts", True, True, True))
        tm.bound(self.rows, 20)
        tm.bound(self.npts.s, 40)
        self.vfmt, self.ifmt = vfmt, ifmt
        self.data = lab.array(st, "data", 2, shape=(self.rows, tm.num(2)))
        self.rs = lab.num("rseries") if rs else const(None)
        self.offset = offset
        self.filt = lab.seq(st, "tuple", [
            lab.num("wind", "int", integer=True, pos=True),
            lab.num("poly", "int", integer=True, pos=True),
            lab.num("theta"), self.npts], "filt") if filt else const(None)
        self.vrn = lab.seq(st, "list", [lab.num("vrn0"), lab.num("vrn1")],
                           "vrn")
        names = ("vmax", "v_multiplier", "i_multiplier", "voffset",
                 "ioffset", "vgap", "vrsg")
        self.p = {k: lab.num(k, pos=k[0:4] in ("vmax", "vgap"))
                  for k in names}
        self.kw = dict(self.p, filter_data=const(filt), rseries=self.rs,
                       debug=const(False), npts=self.npts,
                       v_fmt=const(vfmt), i_fmt=const(ifmt), vrn=self.vrn)
        if filt:
            it = st.heap[next(iter(self.filt.r))].items
            self.kw.update(filter_nwind=it[0], filter_npoly=it[1],
                           filter_theta=it[2])
        if not offset:
            self.kw.update(voffset=const(None), ioffset=const(None))

    def common(self, voff, ioff):
        p = self.p
        return [self.data, const(UNITS[self.vfmt]), const(AMPS[self.ifmt]),
                p["v_multiplier"], p["i_multiplier"], voff, ioff, self.filt,
                self.rs]

    def hints(self):
        """sweeps of several forms"""
        base = {"npts": 61, "dc.vgap": 1.3e-3, "dc.igap": 1.1e-4,
                "dc.offset.v": -.04e-3, "dc.offset.i": 1.7e-6, "vmax": 3e-3, "v_multiplier": 1.1,
                "i_multiplier": .5, "voffset": .03e-3, "ioffset": 1.25e-6,
                "vgap": 1.4e-3, "igap": 1e-4, "vrsg": 1.02e-3,
                "vrn0": 1.7e-3, "vrn1": 2.6e-3, "rseries": 1.3,
                "wind": 7, "poly": 3, "theta": .8,
                ("br", "isnan"): holes}
        if self.rs.s is not None:
            base["vmax"] = .3e-3          # a closer look around zero
        out = []
        for form in (up, down, updown, downup):
            out.append(dict(base, rows=form(None)))
            out[-1][("cell", "data")] = measured(
                form, UNITS[self.vfmt], AMPS[self.ifmt],
                base["ioffset"] / base["i_multiplier"]
                if self.rs.s is not None else None)
        return out


def sweep(*ends):
    """voltages of a sweep: steps wide or, near some voltages, narrow"""
    out = []
    for a, b in zip(ends, ends[1:]):
        vs = [k * .3 for k in range(-8, 9)]
        fine = [.96, 1.0, 1.05, 1.08, 1.75, 1.9, 2.0, 2.2]
        vs = sorted(set(vs + fine), reverse=b < a)
        out += [v for v in vs if min(a, b) <= v <= max(a, b)]
    return lambda k: len(out) if k is None else out[k]


up, down = sweep(-2.4, 2.4), sweep(2.4, -2.4)
updown, downup = sweep(.6, 2.4, -2.4, .6), sweep(-.3, -2.4, 2.4, -.3)


def measured(form, vu, iu, none=None):
    """cells of a measurement; currents and voltages with some noise, at zero
    voltage the current is ``none`` or the resistance negative"""
    def at(pt, idx):
        k, c = (int(round(abs(x))) for x in idx)
        v = form(k) + .01 * (pt.rnd(("v", k), lo=-1, hi=1) + .3)
        if not c:
            return v * 1e-3 / vu
        if none is not None and abs(form(k)) < .01:
            if pt.rnd(("none", k), integer=True, lo=0, hi=1):
                return none / iu
            return (none - math.copysign(2e-8, v - .027)) / iu
        i = 12. * v + 8 * v ** 3 + .1 * pt.rnd(("i", k), lo=-1, hi=1)
        if form is downup:
            i -= 1.2 * v ** 5          # the highest current is not at the end
        return i * 1e-6 / iu
    return at


def c19(rep, thorough):
    rep.rule = ("dciv_curve and iv_curve with given offsets: axis, "
                "normalised current and metadata equal the written-down "
                "ones for any measured data")
    lab = Lab(rep)

    def one(item):
        kind, opts = item
        lab.rounds = 4 if dict(opts).get("rs") else 2
        g = Rig(lab, **dict(opts))
        key = "%s, %s" % (kind, ", ".join("%s=%s" % x for x in opts))
        p, off = g.p, [g.p["voffset"], g.p["ioffset"]]
        if kind == "dciv_curve":
            a = lab.run(IV + kind, g.st, {"ivdata": g.data}, kw=g.kw)
            b = lab.spec("curves.dc", g.st, g.common(*off) + [
                p["vgap"], g.vrn, p["vrsg"], p["vmax"], g.npts])
        else:
            dc = lab.dc(g.st, "dc", tm.atom("dcrows", True, True, True),
                        const(None))
            if not g.offset:
                o = g.st.heap[next(iter(lab.attr(g.st, dc, "offset").r))]
                off = o.items
            a = lab.run(IV + kind, g.st, {"ivdata": g.data, "dc": dc},
                        kw=g.kw)
            b = lab.spec("curves.pumped", g.st, g.common(*off) + [
                lab.attr(g.st, dc, "vgap"), lab.attr(g.st, dc, "igap"),
                p["vmax"], g.npts])
        lab.same(key, *(a + b), hints=g.hints())
    todo = []
    for kind in ("dciv_curve", "iv_curve"):
        todo += [(kind, ()), (kind, (("vfmt", "V"), ("ifmt", "mA"))),
                 (kind, (("vfmt", "uV"), ("ifmt", "A"), ("rs", True))),
                 (kind, (("filt", True),))]
    todo.append(("iv_curve", (("offset", False),)))
    if thorough:
        todo += [(k, (("filt", True), ("rs", True)))
                 for k in ("dciv_curve", "iv_curve")]
    lab.spread(todo, one)
    need(rep, "comparisons", 2)


def rising(steps, *ends):
    """voltages of a sweep with a steep rise at 2.4 mV"""
    vs = [-2.2 + .3 * k for k in range(15)] + [-2.2 + steps] + \
        [2.05 + .06 * k for k in range(5)] + \
        [2.36 + .004 * k for k in range(18)] + \
        [x + .004 * k for x in (-1.52, 1.48, 1.82) for k in range(12)] + \
        [2.5 + .1 * k for k in range(13)]
    out = []
    for a, b in zip(ends, ends[1:]):
        out += [v for v in sorted(set(vs), reverse=b < a)
                if min(a, b) <= v <= max(a, b)]
    return lambda k: len(out) if k is None else out[k]


def step_cells(form, vu, iu, at_v=1.5, jump=0):
    """cells of such a measurement, with noise and a jump below the gap"""
    def at(pt, idx):
        k, c = (int(round(abs(x))) for x in idx)
        v = form(k)
        if not c:
            return (v + .001 * pt.rnd(("v", k), lo=-1, hi=1)) * 1e-3 / vu
        i = 2 * v + 20 / (1 + math.exp(min(-60 * (v - 2.39), 300))) + \
            jump / (1 + math.exp(max(min(-1000 * (v - at_v), 300), -300))) + \
            .05 * pt.rnd(("i", k), lo=-1, hi=1)
        return i * 1e-6 / iu
    return at


def c33(rep, thorough):
    rep.rule = ("dciv_curve without vgap, voffset or ioffset: gap voltage "
                "and offsets are the ones of the written-down procedure")
    lab = Lab(rep)

    def one(item):
        key, opts = item
        tm.LET[0] = 40
        lab.rounds = 3
        opts = dict(opts)
        known = opts.pop("known", ("voffset", "ioffset"))
        g = Rig(lab, **opts)
        zero = const(0.)
        off = [g.p[k] if k in known else zero
               for k in ("voffset", "ioffset")]
        kw = dict(g.kw, vgap=const(None))
        for k in ("voffset", "ioffset"):
            if k not in known:
                kw[k] = const(None)
        s1, out = lab.run(IV + "dciv_curve", g.st, {"ivdata": g.data},
                          kw=kw)
        r1 = None if out is None else lab.attr(
            s1, s1.heap[next(iter(out.r))].items[2], "vgap")
        b = lab.spec("curves.found_gap", g.st, g.common(*off) + [g.vrn])
        hints = []
        one_way = rising(.12, -2.3, 4)
        for form, *jump in (
                (one_way,), (rising(.2, 4, -2.3),),
                (rising(.12, .5, 4, -2.3, .5),), (one_way, 1.5, 30),
                (one_way, -1.5, 40), (one_way, 1.84545, 40),
                (one_way, 1.8456, 70), (one_way, 1.8454, 30)):
            h = dict(g.hints()[0], vrn0=2.75e-3, vrn1=4e-3, rows=form(None),
                     npts=450, vmax=5e-3)
            h[("cell", "data")] = step_cells(form, UNITS[g.vfmt],
                                             AMPS[g.ifmt], *jump)
            hints.append(h)
        lab.same(key, s1, r1, *b, hints=hints)
    def offsets(item):
        key, known, rng = item
        tm.LET[0] = 40
        lab.rounds = 2
        g = Rig(lab)
        it, p = lab.it, g.p
        zero = const(0.)
        low, high = lab.num("low"), lab.num("high")
        if rng == "number":
            high = lab.num("high", "float")
            low = unk("float", EMPTY, -high.s)
        found = [lab.num("found.v"), lab.num("found.i")]
        kw = dict(g.kw, voffset_range=high if rng == "number" else
                  lab.seq(g.st, rng, [low, high], "range"))
        for k in ("voffset", "ioffset"):
            if k not in known:
                kw[k] = const(None)
        trial = [lab.num("trial.v"), lab.num("trial.i")]
        calls = []

        def pair(st, vs, node, tag):
            return it.new_array(
                st, node, lambda i, vs=vs: tm.phi(
                    tm.eq0(i[0]), vs[0].s, vs[1].s) if i[0].rational is None
                else vs[int(i[0].rational)].s, 1, EMPTY,
                shape=(tm.num(2),), dtype="float", tag=tag)

        def minimum(m, st, args, kwargs, node):
            calls.append(None)
            x0 = args[1] if len(args) > 1 else kwargs.get("x0")
            fun = args[0] if args else kwargs.get("fun")
            if fun is None or x0 is None or kwargs.get("args") is not None:
                return None
            s = st.copy()
            v = it.call(fun, [pair(s, trial, node, "trial")], {}, s,
                        node)
            x = m.arr_parts(st, x0)
            start = None
            if x[0] == 1 and x[1] is not None:
                start = [unk("float", EMPTY, x[1]((tm.num(k),)))
                         for k in (0, 1)]
            calls[-1] = (s, v, start)
            return it.new(st, O("inst", cls="minimum", attrs={
                "x": pair(st, found, node, "found")}), node, "minimum")
        it.minimum = minimum
        try:
            s1, out = lab.run(IV + "dciv_curve", g.st, {"ivdata": g.data},
                              kw=kw)
        finally:
            it.minimum = None
        hints = []
        for form, lo, hi in ((rising(.12, -2.3, 4), -.9e-3, .8e-3),
                             (rising(.12, -2.3, 4), -1.3e-3, .6e-3),
                             (rising(.12, 0, 4), -.9e-3, .9e-3),
                             (rising(.12, -2.3, .6), -.9e-3, .9e-3),
                             (rising(.12, -2.3, 4), -1.2e-3, .5e-3)):
            h = dict(g.hints()[0], vrn0=.1e-3, vrn1=2e-3, low=lo, high=hi,
                     rows=form(None), npts=150, vmax=5e-3, vrsg=2.63e-3)
            h.update({"found.v": .04e-3, "found.i": 1.1e-6,
                      "trial.v": -.07e-3, "trial.i": -.9e-6})
            h[("cell", "data")] = step_cells(form, UNITS[g.vfmt],
                                             AMPS[g.ifmt])
            hints.append(h)
        base = [g.data, const(UNITS[g.vfmt]), const(AMPS[g.ifmt]),
                p["v_multiplier"], p["i_multiplier"], low, high]
        given = [p[k] if k in known else zero for k in ("voffset", "ioffset")]
        b = lab.spec("curves.dc_auto", g.st, base + [
            lab.seq(g.st, "list", found, "f"),
            lab.seq(g.st, "list", given, "g"), g.filt, g.rs, p["vgap"],
            g.vrn, p["vrsg"], p["vmax"], g.npts])
        lab.same(key + ": curve", s1, out, *b, hints=hints)
        if len(calls) != 1 or calls[0] is None:
            rep.count("searches not seen")
            return
        s, v, start = calls[0]
        lab.same(key + ": asymmetry", s, v, *lab.spec(
            "curves.imbalance", g.st, base + trial), hints=hints[:2] + hints[-1:])
        if start is None:
            return
        mean = lab.spec("curves.mean_current", g.st, base)
        lab.same(key + ": first voltage offset", s, start[0], g.st,
                 given[0], hints=hints[:2] + hints[-1:])
        lab.same(key + ": first current offset", s, start[1], *(
            (g.st, given[1]) if "ioffset" in known else mean),
            hints=hints[:2] + hints[-1:])

    todo = [("gap voltage", ()),
            ("gap voltage, other units", (("vfmt", "uV"), ("ifmt", "A")))]
    if thorough:
        todo += [("gap voltage, units of both", (("vfmt", "V"),
                                                 ("ifmt", "mA")))]
    more = [("no offsets", (), "tuple"), ("voffset", ("voffset",), "list"),
            ("ioffset", ("ioffset",), "number")]
    lab.spread([(one, x) for x in todo] + [(offsets, x) for x in more],
               lambda x: x[0](x[1]))
    need(rep, "comparisons", 2)


CHECKS = {"C18": c18, "C19": c19, "C33": c33}
