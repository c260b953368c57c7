"""C13: impedance recovery."""
import math
from .. import evalterm, terms as tm
from ..evalterm import Undefined
from ..lab import Lab
from ..values import const
from .formula import need
from .objects import EXP, Bench, options

#: attributes that do not need the best impedance, and those that do
EASY = ("alpha", "zw", "err_surf")
HARD = ("zt", "vt", "fit_good")


class Site(object):
    """a pumped curve, a response function and the options of the fit"""

    def __init__(self, lab, num_b=1, zemb=False, cut=False):
        self.lab = lab
        self.b = b = Bench(lab)
        self.num = num = options(lab, b.st)
        b.hook()
        s, dc = lab.run(EXP + "exp_data.DCData", b.st, {
            "dciv": b.data["dciv"], "dcif": const(None)}, kw=num)
        if dc is None:
            self.dc = None
            return
        rows = (tm.num(21),)
        s, resp = lab.spec("recovery.make", s, [
            lab.array(s, k, shape=rows) for k in ("rv", "ri", "rk")])
        o = s.heap[next(iter(dc.r))]
        s.heap[next(iter(dc.r))] = o.rep(attrs=dict(o.attrs, resp=resp))
        self.dc, self.st = dc, s
        pos = {k: lab.num(k, pos=True) for k in ("low", "high", "alpha_max")}

        def pair(a, c, tag):
            return lab.seq(s, "tuple", [a, c], tag)
        ends = [lab.num(k) for k in ("r0", "r1", "x0", "x1")]
        remb, xemb = pair(*ends[:2], "remb"), pair(*ends[2:], "xemb")
        z = lab.w.make(s, "complex", "zemb") if zemb else const(None)
        num.update(analyze_iv=const(True), num_b=const(num_b),
                   alpha_max=pos["alpha_max"], remb_range=remb,
                   xemb_range=xemb, zemb=z,
                   fit_range=pair(pos["low"], pos["high"], "fit"))
        high = pos["high"]
        if cut:
            num.update(fit_range=const(None), cut_low=pos["low"],
                       cut_high=pos["high"])
            s, high = lab.spec("recovery.rest", s, [high])
            self.st = s
        self.args = [b.v, b.i, resp, num["freq"],
                     lab.attr(s, b.meta, "fgap"), pos["low"], high,
                     pos["alpha_max"], num["num_b"], remb, xemb, z]

    def both(self):
        b, none = self.b, const(None)
        a = self.lab.run(EXP + "exp_data.PumpedData", self.st, {
            "ivdata": b.data["iv"], "dciv": self.dc, "if_hot": none,
            "if_cold": none}, opts=False, kw=self.num)
        return a, self.lab.spec("recovery.recover", self.st, self.args)


def axis(lo, hi, n):
    def at(pt, idx):
        k = int(round(abs(idx[0])))
        return lo + (hi - lo) * (k + .4 * pt.rnd(("ax", lo, k), lo=-1,
                                                 hi=1)) / n
    return at


def dark(v):
    return v ** 11 / (1 + v ** 10)


def hints(cut=False, tiny=False):
    grid, bias = axis(-2.5, 2.5, 20), axis(.1, 2.3, 30)

    def ri(pt, idx):
        return .02 + dark(grid(pt, idx))

    def rk(pt, idx):
        x = grid(pt, idx)
        return math.exp(-4 * (x - 1) ** 2) + math.exp(-4 * (x + 1) ** 2)

    def current(pt, idx):
        x = bias(pt, idx)
        return .05 + .2 / (1 + math.exp(-12 * (x - .8))) + .95 * dark(x)
    def faint(vph, level):
        def at(pt, idx):
            """pumped by about ``level``"""
            x = bias(pt, idx)
            xs = [grid(pt, (k,)) for k in range(21)]

            def idc(z):
                k = max(n for n in range(20) if xs[n] <= z or not n)
                y = [ri(pt, (k + n,)) for n in (0, 1)]
                return y[0] + (y[1] - y[0]) * (z - xs[k]) / (
                    xs[k + 1] - xs[k])
            a = level * pt.rnd(("level", idx), lo=.5, hi=1.5)
            return idc(x) + a ** 2 / 4 * (
                idc(x - vph) + idc(x + vph) - 2 * idc(x))
        return at
    out = []
    cases = [(.4, .1, .8, .04, x) for x in (
        6e-3, 9e-3, 1.05e-2, 1.12e-2, 1.3e-2, 2e-2)] if tiny else []
    for vph, low, high, top, level in cases or (
            (.35, .2, .8, 1.5, 0), (.5, .15, .7, 2., 0),
            (.4, .05, .6, 1.3, 0), (.5, .35, .9, 1., 0),
            (.45, .3, .9, 1.2, 0)):
        out.append({
            "mpts": 21, "npts": 51, "dc.vgap": 1.7, "dc.rn": 14.,
            "sc.h": 1.1, "sc.e": .9, "freq": vph * 1.7 * .9 / 1.1 / 1e9,
            "low": low, "high": 1 - high if cut else high, "alpha_max": top,
            "r0": .05, "r1": 1.2, "x0": -.9, "x1": 1.15, ("cell", "rv"): grid,
            ("cell", "ri"): ri, ("cell", "rk"): rk, ("cell", "v"): bias,
            ("cell", "i"): faint(vph, level) if level else current})
    return out


def surfaces(t):
    return [x for x in tm.subterms(t) if x.op == "lam" and x.args[0] == 2]


def opened(x):
    ks = tuple(tm.bvar(hint="k") for _ in range(2))
    return ks, tm.sel(x, ks)


def replaced(lab, terms, body, hs, mp):
    """the terms with error surfaces (tables with cells ``body``) replaced by
    an input array (``mp``: those known)"""
    arr = tm.arr("surface", True)
    new = []
    for t in terms:
        for x in surfaces(t):
            if x in mp:
                continue
            ks = tuple(tm.bvar(hint="k") for _ in range(2))
            free = {tm.as_base(k): pick(n, m) for n, (k, m) in enumerate(
                zip(ks, (101, 201)))}
            r, _ = lab.terms(tm.sel(x, ks), body(ks), hs, "", free)
            mp[x] = tm.lift(arr) if r else None
        used = {x: y for x, y in mp.items() if y is not None}
        new.append(tm.subst(t, used) if used else t)
    return new


def pick(n, m):
    return lambda pt: pt.rnd(("cell", n), integer=True, lo=0, hi=m - 1)


def cell(body):
    """a surface that is right at its minimum (anywhere) only"""
    def at(pt, idx):
        at = [int(round(abs(x))) for x in idx]
        i, j = at if len(at) == 2 else divmod(at[0], 201)
        if "surface" not in pt.hints:
            best = (pick(0, 101)(pt), pick(1, 201)(pt))
            low = pt.p(body(tuple(tm.num(k) for k in best)))
            pt.hints["surface"] = best, low.real
        best, low = pt.hints["surface"]
        return low if (i, j) == best else low + 1e-3 + abs(low) * (
            1 + (i * 7 + j * 13) % 11)
    return at


def c13(rep, thorough):
    rep.rule = ("PumpedData with impedance recovery: drive level, junction "
                "impedance, error surface, embedding impedance, voltage and "
                "quality flag equal those of the written-down procedure for "
                "any pumped curve and response function")
    lab = Lab(rep)
    lab.rounds, lab.split, lab.limit = 1, 50, 200
    tm.MAXTERMS, tm.LET[0], evalterm.LONGEST[0] = 2500, 4, 25000

    def one(opts):
        key = ", ".join("%s=%s" % x for x in opts)
        g = Site(lab, **dict(opts))
        if g.dc is None:
            rep.count("comparisons")
            return
        hs = hints(dict(opts).get("cut"))
        (s1, out), (s2, want) = g.both()
        if out is None:
            lab.same(key, s1, out, s2, want)
            return
        have = s1.heap[next(iter(out.r))].attrs or {}
        want = s2.heap[next(iter(want.r))].items
        for k in EASY:
            same = one_attr(k, key, s1, have, s2, want, hs)
        e = lab.element(s2, next(iter(want["str", "err_surf"].r)))
        body, mp = e[2], {}
        if same and have[k].r:
            # found where it is used, too
            for f in (lab.element(s1, next(iter(have[k].r))), e):
                mp[tm.as_base(tm.lift(tm.lam(2, f[2])))] = tm.lift(
                    tm.arr("surface", True))
        for k in HARD:
            a, b = have.get(k), want["str", k].s
            lab.rep.count("comparisons")
            if a is None or a.s is None or a.r:
                lab.rep.undec("%s: %s not understood" % (key, k))
                continue
            x, y = replaced(lab, [a.s, b], body, hs, mp)
            at = hints(dict(opts).get("cut"), k == "fit_good")
            for h in at:
                h["cell", "surface"] = cell(body)
            r, why = lab.terms(x, y, at, k)
            if r is False:
                lab.rep.finding("%s: %s" % (key, k),
                                "value differs from the specification: " +
                                why)
            elif r is None:
                lab.rep.undec("%s: %s (%s)" % (key, k, why))
            else:
                lab.rep.count("decided")

    def one_attr(k, key, s1, have, s2, want, hs):
        if k not in have:
            lab.rep.count("comparisons")
            lab.rep.undec("%s: %s not found" % (key, k))
            return None
        return lab.same("%s: %s" % (key, k), s1, have[k], s2, want["str", k],
                 hints=hs)
    todo = [(("num_b", 1),), (("num_b", 2), ("zemb", True)),
            (("num_b", 1), ("cut", True))]
    if thorough:
        todo += [(("num_b", 4),), (("num_b", 20), ("zemb", True))]
    lab.spread(todo, one)
    need(rep, "comparisons", 5)


CHECKS = {"C13": c13}
