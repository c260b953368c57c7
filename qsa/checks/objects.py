"""C21: the data objects hold what the importers found."""
from .. import terms as tm
from ..lab import Lab
from ..values import EMPTY, V, const, unk
from .exper import holes
from .formula import need

EXP = "qmix.exp."
NONE = frozenset([("NoneType", None)])


class Bench(object):
    """DCData and PumpedData with importers that return independent data"""

    def __init__(self, lab):
        self.lab = lab
        lab.it.hooks, lab.it.draw = {}, None     # of an earlier case
        self.st = st = lab.state()
        self.got = {}                  # what the importers were given
        self.n, self.m, self.k = (tm.atom(x, True, True, True)
                                  for x in ("npts", "mpts", "ifpts"))
        for t in (self.n, self.m, self.k):
            tm.bound(t, 40)
        self.meta = lab.dc(st, "dc", self.n, const(None))
        self.names = set(st.heap[next(iter(self.meta.r))].attrs)
        # numbers that follow from others
        o = st.heap[next(iter(self.meta.r))]
        at = dict(o.attrs)
        _, v = lab.spec("objects.consistent", st, [at["vgap"], at["rn"]])
        o2 = _.heap[next(iter(v.r))]
        at["igap"], at["fgap"] = o2.items
        st.heap[next(iter(self.meta.r))] = o.rep(attrs=at)
        self.dcif = self.curve_meta("dcif")
        self.ifmeta = self.curve_meta("ifm")
        arr = lab.array
        self.vdc, self.idc = (arr(st, k, shape=(self.n,))
                              for k in ("vdc", "idc"))
        self.v, self.i, self.r = (arr(st, k, shape=(self.m,))
                                  for k in ("v", "i", "rdyn"))
        self.noise = arr(st, "noise", 2, shape=(self.k, tm.num(2)))
        self.result = arr(st, "result", 2, shape=(self.k, tm.num(5)))
        self.best = lab.num("best", "int", integer=True)
        self.data = {k: arr(st, k, 2, shape=(tm.atom("rows." + k, True, True,
                                                     True), tm.num(2)))
                     for k in ("dciv", "dcifdata", "iv", "hot", "cold")}

    def curve_meta(self, label):
        """metadata of IF data: independent numbers"""
        lab, st = self.lab, self.st
        g = lab.array(st, label + ".raw", 2)
        s, r = lab.run(EXP + "if_data.dcif_data", st, {
            "ifdata": g, "dc": self.meta}, kw={"verbose": const(False)})
        if r is None or len(r.r) != 1:
            return None
        o = s.heap[next(iter(r.r))]
        if not o.items or len(o.items[-1].r) != 1:
            return None
        x = s.heap[next(iter(o.items[-1].r))]
        if not x.attrs:
            return None
        at = {}
        for k in x.attrs:
            n = "%s.%s" % (label, k)
            at[k] = lab.array(st, n, 2, shape=(self.k, tm.num(2))) \
                if k == "shot_slope" else \
                unk("bool", frozenset([n]), tm.gt0(tm.atom(n))) \
                if k == "if_fit" else lab.num(n)
        oid = ("in", label, "meta")
        st.heap[oid] = x.rep(attrs=at)
        return V(r=frozenset([oid]), d=frozenset([label]))

    def hook(self):
        lab = self.lab

        def bind(names, args, kwargs):
            out = dict(zip(names, args))
            out.update(kwargs)
            return out

        def tup(it, st, node, *values):
            from ..values import O
            return it.new(st, O("tuple", items=tuple(values), rest=None,
                                deps=EMPTY), node, "imported")

        now = [None]

        def note(kind, a):
            self.got.setdefault(kind, []).append(a)
            a["state"] = now[0]

        def dciv(it, c, args, kwargs, st, node):
            now[0] = st.copy()
            note("dciv_curve", bind(("ivdata",), args, kwargs))
            return tup(it, st, node, self.vdc, self.idc, self.meta)

        def dcif(it, c, args, kwargs, st, node):
            now[0] = st.copy()
            note("dcif_data", bind(("ifdata", "dc"), args, kwargs))
            return tup(it, st, node, self.noise, self.dcif)

        def curve(it, c, args, kwargs, st, node):
            now[0] = st.copy()
            note("iv_curve", bind(("ivdata", "dc"), args, kwargs))
            return tup(it, st, node, self.v, self.i)

        def power(it, c, args, kwargs, st, node):
            now[0] = st.copy()
            note("if_data", bind(("if_hot", "if_cold", "dc"), args, kwargs))
            return tup(it, st, node, self.result, self.best, self.ifmeta)

        def resp(it, c, args, kwargs, st, node):
            now[0] = st.copy()
            a = bind(("self", "voltage", "current"), args, kwargs)
            note("resp", a)
            return const(None)

        def span(it, c, args, kwargs, st, node):
            now[0] = st.copy()
            a = bind(("x", "y", "n", "nozeros"), args, kwargs)
            if "x" in a and "y" in a and a["x"].r == self.v.r and \
                    a["y"].r == self.i.r:
                return self.inverse(st)       # the other way round
            note("slope_span_n", a)
            return self.r
        lab.it.hooks = {
            EXP + "iv_data.dciv_curve": dciv,
            EXP + "if_data.dcif_data": dcif,
            EXP + "iv_data.iv_curve": curve,
            EXP + "if_data.if_data": power,
            "qmix.respfn.RespFnFromIVData.__init__": resp,
            "qmix.mathfn.misc.slope_span_n": span}

    def inverse(self, st):
        e = self.lab.element(st, next(iter(self.r.r)))
        return self.lab.made(st, lambda i: tm.power(e[2](i), -1), 1, e[1])

    def hints(self, extra=None):
        def axis(lo, hi, n):
            def at(pt, idx):
                k = int(round(abs(idx[0])))
                return lo + (hi - lo) * (k + .4 * pt.rnd(
                    ("ax", k), lo=-1, hi=1)) / n
            return at

        def result(pt, idx):
            k, c = (int(round(abs(x))) for x in idx)
            if c == 0:
                return .2 + .05 * k
            return 1. + pt.rnd(("res", k, c), lo=0, hi=9)
        base = {"npts": 51, "mpts": 61, "ifpts": 45, "vleak": 1.7e-3,
                "dc.vgap": 2.7e-3,
                "dc.rn": 14., "dc.rsg": 300., "freq": 231., "area": 1.3,
                "best": 17, ("cell", "vdc"): axis(-2.2, 2.2, 51),
                ("cell", "v"): axis(-.1, 2.9, 61),
                ("cell", "result"): result}
        base.update(extra or {})
        return [base, dict(base, best=31, vleak=2.2e-3)]


def options(lab, st):
    """numbers for all options that the importers use"""
    num = {}
    for k in ("vmax", "v_multiplier", "i_multiplier", "voffset", "ioffset",
              "rseries", "filter_theta", "ifdata_sigma", "vgap", "vrsg",
              "vbest", "vleak", "area", "t_cold", "t_hot", "freq",
              "v_smear"):
        num[k] = lab.num(k, pos=k in ("area", "freq"))
    for k in ("npts", "ifdata_npts", "filter_nwind", "filter_npoly"):
        num[k] = lab.num(k, "int", integer=True, pos=True)
    num["verbose"] = const(False)
    return num


#: options of each importer
TAKES = {
    "dciv_curve": ("v_fmt", "i_fmt", "vmax", "npts", "v_multiplier",
                   "i_multiplier", "voffset", "ioffset", "rseries", "vgap",
                   "vrsg", "filter_data", "filter_theta", "filter_nwind",
                   "filter_npoly"),
    "dcif_data": ("v_fmt", "vmax", "v_multiplier", "rseries", "ifdata_npts",
                  "ifdata_sigma"),
    "iv_curve": ("v_fmt", "i_fmt", "vmax", "npts", "v_multiplier",
                 "i_multiplier", "voffset", "ioffset", "rseries",
                 "filter_data", "filter_theta", "filter_nwind",
                 "filter_npoly"),
    "if_data": ("v_fmt", "vmax", "v_multiplier", "rseries", "ifdata_npts",
                "ifdata_sigma", "freq", "t_cold", "t_hot", "vbest",
                "best_pt")}
TABLE = {"v_fmt": "mV", "i_fmt": "mA", "filter_data": True,
         "best_pt": "Max Gain"}


def given(lab, b, key, kind, st, num, **data):
    """the importer gets the data and the options unchanged"""
    calls = b.got.get(kind)
    if not calls or len(calls) != 1:
        lab.rep.count("comparisons")
        lab.rep.undec("%s: %s is not called once" % (key, kind))
        return
    a = calls[0]
    st = a["state"]
    for k, v in data.items():
        if k in a:
            lab.same("%s: %s of %s" % (key, k, kind), st, a[k], st, v,
                     hints=b.hints())
    for k in TAKES.get(kind, ()):
        want = num.get(k, const(TABLE.get(k)))
        if k in a and not (k not in num and k not in TABLE):
            lab.same("%s: option %s of %s" % (key, k, kind), st, a[k], st,
                     want, hints=b.hints())


def c21(rep, thorough):
    rep.rule = ("DCData and PumpedData with importers replaced by "
                "independent data: every attribute equals the written-down "
                "one; importers get data and options unchanged")
    lab = Lab(rep)

    def one(item):
        kind, with_if = item
        b = Bench(lab)
        if b.dcif is None or b.ifmeta is None:
            rep.count("comparisons")
            rep.undec("IF metadata not understood")
            return
        num = options(lab, b.st)
        b.hook()
        key = "DCData, %s" % ("with IF data" if with_if else "no IF data")
        args = {"dciv": b.data["dciv"], "dcif": b.data["dcifdata"]
                if with_if else const(None)}
        s, dc = lab.run(EXP + "exp_data.DCData", b.st, args, kw=num)
        s0 = s
        if kind == "dc":
            s2, want = lab.spec("objects.dc", s, [
                b.vdc, b.idc, b.meta, num["vleak"], num["area"],
                b.noise if with_if else const(None),
                b.dcif if with_if else const(None)])
            lab.same(key, s, dc, s2, want, hints=b.hints())
            given(lab, b, key, "dciv_curve", s, num,
                  ivdata=b.data["dciv"])
            if with_if:
                given(lab, b, key, "dcif_data", s, num,
                      ifdata=b.data["dcifdata"])
            curves(lab, b, key, s, dc, num)
            return
        if dc is None:
            rep.count("comparisons")
            return
        key = "PumpedData, %s" % with_if
        num["analyze_iv"] = const(with_if == "with impedance recovery")
        num["num_b"] = const(1)
        if with_if == "analyze_if=False":
            num["analyze_if"] = const(False)
        args = {"ivdata": b.data["iv"], "dciv": dc, "if_hot": const(None),
                "if_cold": const(None)}
        if with_if != "no IF data":
            args.update(if_hot=b.data["hot"], if_cold=b.data["cold"])
        s, out = lab.run(EXP + "exp_data.PumpedData", s, args, opts=False,
                         kw=num)
        have = with_if.startswith("with ")
        s2, want = lab.spec("objects.pumped", s, [
            b.v, b.i, b.r, b.meta, b.vdc, b.idc, num["freq"],
            b.result if have else const(None), b.best, b.ifmeta])
        lab.same(key, s, out, s2, want, hints=b.hints())
        given(lab, b, key, "iv_curve", s, num, ivdata=b.data["iv"])
        given(lab, b, key, "slope_span_n", s, num, x=b.i, y=b.v,
              n=const(21))
        if have:
            given(lab, b, key, "if_data", s, num, if_hot=b.data["hot"],
                  if_cold=b.data["cold"])
            calls = b.got.get("if_data")
            if calls and len(calls) == 1 and "dcif" in calls[0]:
                v = calls[0]["dcif"]
                s = calls[0]["state"]
                s2, want = lab.spec("objects.meta", s, [b.dcif])
                lab.same(key + ": dcif of if_data", s, v, s2, want,
                         hints=b.hints())
    todo = [("dc", False), ("dc", True)]
    todo += [("pumped", x) for x in ("no IF data", "with IF data",
                                     "analyze_if=False",
                                     "with impedance recovery")]
    lab.spread(todo, one)
    need(rep, "comparisons", 5)


def curves(lab, b, key, st, dc, num):
    """the response functions are made of the normalised curve"""
    o = st.heap[next(iter(dc.r))]
    for name, smear in (("resp", const(None)), ("resp_smear",
                                                num["v_smear"])):
        v = (o.attrs or {}).get(name)
        a = None
        if v is not None and len(v.r) == 1:
            a = [x for x in b.got.get("resp", ()) if x["self"].r == v.r]
        if not a or len(a) != 1:
            lab.rep.count("comparisons")
            lab.rep.undec("%s: %s not understood" % (key, name))
            continue
        a = a[0]
        for k, want in (("voltage", b.vdc), ("current", b.idc),
                        ("v_smear", smear)):
            if k in a:
                lab.same("%s: %s of %s" % (key, k, name), a["state"], a[k],
                         a["state"], want, hints=b.hints())


CHECKS = {"C21": c21}
