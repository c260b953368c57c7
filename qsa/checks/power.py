"""C20: Y-factor measurements (IF power)."""
from .. import terms as tm
from ..lab import Lab
from ..values import const, unk
from .exper import UNITS, holes
from .formula import need

IF = "qmix.exp.if_data."


class Rig(object):
    """options of a measurement"""

    def __init__(self, lab, vfmt="mV", sigma=None, rs=False, two=False):
        self.lab = lab
        self.st = st = lab.state()
        self.rows = tm.atom("rows", True, True, True)
        self.dcrows = tm.atom("dcrows", True, True, True)
        for t in (self.rows, self.dcrows):
            tm.bound(t, 20)
        self.vfmt, self.rs = vfmt, lab.num("rseries") if rs else const(None)
        self.dc = lab.dc(st, "dc", self.dcrows, const(None))
        self.npts, self.vmax = 31, 3e-3
        if sigma is not None:      # the window follows from known numbers
            for r in self.dc.r:
                o = st.heap[r]
                st.heap[r] = o.rep(attrs=dict(o.attrs, vgap=const(1.3e-3)))
        # in volts or (as before) in points
        self.sigma = const(sigma)
        self.window = const(None)
        if sigma is not None:
            pts = sigma if sigma > .5 else sigma / self.vmax * (self.npts - 1)
            self.window = lab.seq(st, "tuple", [int(3 * pts + 1e-5), pts],
                                  "win")
        ends = [lab.num("vshot%d" % k) for k in range(4)]
        pair = [lab.seq(st, "tuple", ends[k:k + 2], "r%d" % k)
                for k in (0, 2)]
        self.ranges = lab.seq(st, "list", pair if two else pair[:1], "rr")
        self.vshot = self.ranges if two else pair[0]
        self.two = two
        names = ("freq", "t_hot", "t_cold", "v_multiplier")
        self.p = {k: lab.num(k, pos=k[0] in "ft") for k in names}
        self.kw = {"v_fmt": const(vfmt), "verbose": const(False),
                   "v_multiplier": self.p["v_multiplier"],
                   "rseries": self.rs, "vmax": const(self.vmax),
                   "ifdata_npts": const(self.npts),
                   "ifdata_sigma": self.sigma, "vshot": self.vshot}
        self.vgap, self.vint = (lab.attr(st, self.dc, k)
                                for k in ("vgap", "vint"))

    def data(self, name):
        return self.lab.array(self.st, name, 2, shape=(self.rows, tm.num(2)))

    def arg(self):
        off = self.lab.attr(self.st, self.dc, "offset")
        o = self.st.heap[next(iter(off.r))]
        return self.lab.seq(self.st, "tuple", [
            const(UNITS[self.vfmt]), self.p["v_multiplier"], o.items[0],
            self.rs, self.lab.attr(self.st, self.dc, "vraw"),
            self.lab.attr(self.st, self.dc, "iraw"), self.vgap,
            const(self.vmax), const(self.npts)], "arg")

    def hints(self, extra=None, ends=False):
        vu = UNITS[self.vfmt]

        def power(level, slope, name, gap, start, same=None):
            def at(pt, idx):
                k, c = (int(round(abs(x))) for x in idx)
                j = k * 17 % 41               # not in order
                v = start + gap * j + .02 * pt.rnd(("v", j), lo=-1, hi=1)
                if not c:
                    if pt.rnd(("twice", k), integer=True, lo=0, hi=9) == 0:
                        v = .731
                    return v * 1e-3 / vu
                low = name == "hot" and j < 9         # hot is the lower one
                if same and 8 < j < 14:
                    return same(pt, idx)
                return level * (.5 if low else 1.) + slope * v + \
                    .1 * abs(level) * pt.rnd(("p", name, k), lo=-1, hi=1)
            return at

        def powers(data, hot, cold, gap=.1, start=-.6):
            hot = power(hot, 5., "hot", gap, start)
            out = dict(base)
            out["cell", "data"] = power(data, 5., "data", gap, start)
            out["cell", "hot"] = hot
            out["cell", "cold"] = power(cold, 3., "cold", gap, start,
                                       hot)
            return out

        def raw(pt, idx):
            k = int(round(abs(idx[0])))
            return (-4 + .4 * k + .05 * pt.rnd(("vr", k), lo=-1, hi=1)) * 1e-3

        def current(pt, idx):
            k = int(round(abs(idx[0])))
            kind = pt.rnd("origin", integer=True, lo=0, hi=2)
            if k == 10 and kind:      # no current or one across the voltage
                return 0. if kind == 1 else \
                    -1e-6 * raw(pt, idx) / abs(raw(pt, idx))
            return raw(pt, idx) * (.05 + .002 * pt.rnd(("ir", k), lo=-1,
                                                       hi=1))
        base = {"rows": 41, "dcrows": 21, "rseries": 1.3, "freq": 230.,
                "t_hot": 293., "t_cold": 78., "v_multiplier": 1.07,
                "dc.vgap": 1.3e-3, "dc.igap": 1.1e-4,
                "dc.offset.v": -.04e-3, "dc.vint": .4e-3,
                "vshot0": 1.31e-3, "vshot1": 2.13e-3,
                "vshot2": 2.36e-3, "vshot3": 2.83e-3,
                ("br", "isnan"): holes,
                ("cell", "dc.vraw"): raw, ("cell", "dc.iraw"): current}
        base.update(extra or {})
        # noise beyond 50 K, beyond 0 K, measured below vmax
        out = [powers(2., 8., 4.), powers(100., 200., 100.)]
        if ends:
            out += [powers(-10., 8., 4.), powers(2., 8., 4., .08),
                    powers(2., 8., 4., start=1.3)]
            out[-1]["dc.vint"] = -.5e-3
        base = out[0]
        if self.two:
            # fewer than five points
            out.append(dict(base, vshot1=1.52e-3, vshot3=2.45e-3))
        else:
            out.append(dict(base, vshot1=1.62e-3))
        return out


def c20(rep, thorough):
    rep.rule = ("dcif_data, if_data and if_response equal the written-down "
                "analysis for any measured data")
    lab = Lab(rep)
    lab.rounds = 6
    lab.split = 10

    def one(item):
        kind, opts = item
        key = "%s, %s" % (kind, ", ".join("%s=%s" % x for x in opts))
        opts = dict(opts)
        if kind == "if_response":
            return response(lab, key, **opts)
        more = {k: opts.pop(k) for k in ("best", "given") if k in opts}
        g = Rig(lab, **opts)
        if kind == "dcif_data":
            data = g.data("data")
            a = lab.run(IF + kind, g.st, {"ifdata": data, "dc": g.dc},
                        kw=g.kw)
            b = lab.spec("power.dcif", g.st, [
                data, g.arg(), g.window, g.vgap, g.vint, g.ranges])
            return lab.same(key, *(a + b), hints=g.hints(ends=True))
        pumped(lab, g, key, **more)
    todo = []
    for kind in ("dcif_data", "if_data"):
        todo += [(kind, ()), (kind, (("vfmt", "uV"), ("two", True))),
                 (kind, (("sigma", 1e-4),)),
                 (kind, (("vfmt", "V"), ("rs", True)))]
    todo += [("dcif_data", (("sigma", 1.5),)),
             ("if_data", (("sigma", 1.5), ("given", True))),
             ("if_data", (("best", "vbest"),)),
             ("if_data", (("best", "Min Tn"),)),
             ("if_response", ()), ("if_response", (("wide", True),)),
             ("if_response", (("square", True),))]
    lab.spread(todo, one)
    need(rep, "comparisons", 2)


def pumped(lab, g, key, best="Max Gain", given=False):
    hot, cold = g.data("hot"), g.data("cold")
    vbest = lab.num("vbest") if best == "vbest" else const(None)
    kw = dict(g.kw, vbest=vbest,
              best_pt=const(best if vbest.s is None else "max gain"),
              freq=g.p["freq"], t_hot=g.p["t_hot"], t_cold=g.p["t_cold"])
    st, meta = g.st, const(None)
    if given:
        s, r = lab.run(IF + "dcif_data", st, {
            "ifdata": g.data("data"), "dc": g.dc}, kw=g.kw)
        if r is None:
            return         # dcif_data is looked at on its own
        dcif = s.heap[next(iter(r.r))].items[1]
        oid = next(iter(dcif.r))
        fields = [lab.num("if_noise"), lab.num("corr"),
                  lab.array(s, "shot", 2), unk("bool", frozenset(["fit"]),
                                              tm.cond_fn("fit"))]
        at = dict(s.heap[oid].attrs)
        at.update(zip(("if_noise", "corr", "shot_slope", "if_fit"), fields))
        at["vmax"] = lab.num("dcif.vmax")
        s.heap[oid] = s.heap[oid].rep(attrs=at)
        kw["dcif"], st = dcif, s
        meta = lab.seq(st, "tuple", fields, "meta")
    g.st = st
    a = lab.run(IF + "if_data", st, {"if_hot": hot, "if_cold": cold,
                                     "dc": g.dc}, kw=kw)
    way = "tn" if best == "Min Tn" else "gain"
    b = lab.spec("power.pumped", st, [
        hot, cold, g.arg(), g.window, g.vgap, g.vint, g.ranges, meta,
        g.p["freq"], g.p["t_hot"], g.p["t_cold"], vbest, const(way)])
    lab.same(key, *(a + b), hints=g.hints({"vbest": 1.37e-3}))


def response(lab, key, wide=False, square=False):
    st = lab.state()
    n = tm.atom("points", True, True, True)
    tm.bound(n, 20)
    if square:
        n = tm.num(3)
    shape = (tm.num(3), n) if wide else (n, tm.num(3))
    data = lab.array(st, "data", 2, shape=shape)
    th, tc, top = (lab.num(k, pos=True) for k in ("th", "tc", "maxtn"))
    a = lab.run("qmix.exp.if_response.if_response", st, {"if_data": data},
                kw={"t_hot": th, "t_cold": tc, "ifresp_maxtn": top})
    b = lab.spec("power.response", st, [data, const(wide), th, tc, top])

    def cell(pt, idx):
        k, c = (int(round(abs(x))) for x in (reversed(idx) if wide else idx))
        base = pt.rnd(("base", k), lo=-60., hi=-40.)
        if c == 0:
            return 4. + .1 * k
        return base + (pt.rnd(("y", k), lo=-1., hi=8.) if c == 1 else 0.)
    hint = {"points": 30, "th": 293., "tc": 78., "maxtn": 300.,
            ("cell", "data"): cell}
    lab.same(key, *(a + b), hints=[hint, dict(hint, maxtn=2000.),
                                    dict(hint, maxtn=1e12)])


CHECKS = {"C20": c20}
