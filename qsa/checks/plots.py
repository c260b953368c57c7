"""C28: plots show the curves of their objects in the units of their axes."""
from .. import terms as tm
from ..lab import Lab
from ..values import EMPTY, O, V, const, unk
from .formula import need
from .objects import Bench, options

EXP = "qmix.exp.exp_data."
DC = EXP + "DCData."
PUMPED = EXP + "PumpedData."

#: methods that draw lines: name -> how many of the first arguments
LINES = {"plot", "semilogx", "semilogy", "loglog", "scatter", "step",
         "errorbar"}
#: methods that draw nothing that is checked here
QUIET = {"axvline", "axhline", "grid", "legend", "text", "minorticks_on",
         "set_xlabel", "set_ylabel", "set_title", "get_figure", "twinx",
         "twiny", "annotate", "set_xlim", "set_ylim", "get_yticklabels",
         "get_xticklabels", "tick_params", "set_facecolor", "axvspan",
         "axhspan", "fill_between", "get_legend_handles_labels",
         "set_xticks", "set_yticks", "get_xlim", "get_ylim", "set_zorder",
         "add_artist", "pcolor", "pcolormesh", "minorticks_off", "margins",
         "autoscale", "ticklabel_format", "spines"}


class Canvas(object):
    """what is drawn during a call"""

    def __init__(self, lab):
        self.lab = lab
        self.lines, self.limits, self.images, self.notes = [], {}, [], []
        self.unclear = []
        lab.it.draw = self.draw

    def draw(self, it, st, ax, name, args, kwargs, node):
        st = st.copy()
        if name in LINES:
            xs = list(args)
            pair = []
            label = kwargs.get("label")
            fresh = []
            while xs:
                v = xs.pop(0)
                if v.t <= {"str"} and not v.r and v.t or v.c and all(
                        k[0] == "str" for k in v.c) and not v.t:
                    if len(pair) == 1:
                        self.unclear.append("one argument")
                    pair = []
                    continue
                pair.append(v)
                if len(pair) == 2:
                    fresh.append((label, st, pair[0], pair[1]))
                    pair = []
            if pair or not fresh:
                self.unclear.append("arguments of " + name)
            self.lines += fresh
        elif name in ("set_xlim", "set_ylim"):
            a = dict(zip(("lo", "hi"), args))
            if len(args) == 1 and len(args[0].r) == 1:
                o = st.heap.get(next(iter(args[0].r)))
                if o is not None and o.kind in ("tuple", "list") and \
                        o.items is not None and len(o.items) == 2:
                    a = dict(zip(("lo", "hi"), o.items))
                else:
                    a = {}
            for k, v in kwargs.items():
                a[{"left": "lo", "right": "hi", "bottom": "lo", "top": "hi",
                   "xmin": "lo", "xmax": "hi", "ymin": "lo",
                   "ymax": "hi"}.get(k, k)] = v
            self.limits.setdefault(name[4], []).append((st, a))
        elif name in ("pcolor", "pcolormesh"):
            self.images.append((st, args))
        elif name == "annotate":
            v = kwargs.get("xy", args[1] if len(args) > 1 else None)
            self.notes.append((st, v))
        elif name not in QUIET:
            self.unclear.append("call of " + str(name))

    def text(self, v):
        if v is None:
            return None
        if len(v.c) == 1 and not (v.t or v.r or v.f):
            k = next(iter(v.c))
            return k[1] if k[0] == "str" else None
        return ()                      # some text


def point(lab, st, v):
    """an array of one element counts as its element"""
    if v.s is None and len(v.r) == 1 and not (v.t or v.c):
        e = lab.element(st, next(iter(v.r)))
        if e is not None and e[0] == 1 and e[1] is not None and \
                e[1][0] is not None and e[1][0] == tm.num(1):
            return V(t=frozenset(["num"]), d=EMPTY, s=e[2]((tm.num(0),)))
        o = st.heap[next(iter(v.r))]
        if o.kind in ("list", "tuple") and o.items is not None:
            if len(o.items) == 1:
                return o.items[0]
            return as_array(lab, st, o)
    return v


def as_array(lab, st, o):
    ts = [x.s for x in o.items]
    if any(t is None for t in ts):
        return V(r=frozenset())

    def content(i):
        out = tm.num(0)
        for k, t in enumerate(ts):
            out = out + tm.eq0(i[0] - tm.num(k)) * t
        return out
    return lab.made(st, content, 1, (tm.num(len(ts)),))


def shown(lab, key, canvas, st, want, hints):
    """each of the specified lines is drawn"""
    rep = lab.rep
    if want is None or len(want.r) != 1:
        rep.count("comparisons")
        rep.undec(key + ": specification unclear")
        return
    items = st.heap[next(iter(want.r))].items or ()
    for n, it in enumerate(items):
        rep.count("comparisons")
        label, x, y = st.heap[next(iter(it.r))].items
        text = canvas.text(label)
        name = "%s: %s" % (key, "curve '%s'" % text if text
                           else "curve %d" % (n + 1))
        best, why = False, "nothing is drawn"
        for lb, s1, x1, y1 in canvas.lines:
            t = canvas.text(lb)
            named = text is not None and t == text
            if text is not None and t and t != text:
                # another curve
                continue
            r, w = one(lab, s1, x1, y1, st.copy(), x, y, hints)
            if r is True:
                best = True
                break
            if r is None:
                best, why = None, w
            elif best is False and (named or why == "nothing is drawn"):
                why = w
        if canvas.unclear and best is False:
            best, why = None, ", ".join(sorted(set(canvas.unclear)))
        verdict(rep, name, best, why)


def verdict(rep, key, r, why):
    if r is False:
        rep.finding(key, "is not drawn as specified: " + str(why))
    elif r is None:
        rep.undec("%s (%s)" % (key, why))
    else:
        rep.count("decided")


def one(lab, s1, x1, y1, s2, x2, y2, hints):
    s1 = s1.copy()
    out = True, ""
    for n, a, b in (("x", x1, x2), ("y", y1, y2)):
        a, b = point(lab, s1, a), point(lab, s2, b)
        if b.s is not None and not b.r and a.s is None and len(a.r) == 1:
            e = lab.element(s1, next(iter(a.r)))
            if e is not None and e[0] == 1 and (
                    e[1] is None or e[1][0] is None or
                    e[1][0].rational is None):
                return False, n + " is a curve, not a point"
        if a.s is not None and not a.r and len(b.r) == 1:
            return False, n + " is a point, not a curve"
        r, w = lab.cmp(s1, a, s2, b, hints, n)
        if r is False:
            return r, w
        if r is None:
            out = r, w
    return out


#: method, specification, has IF data
PLOTS = [("DCData.plot_dciv", "dc_curve", True),
         ("DCData.plot_offset", "origin", True),
         ("DCData.plot_if_noise", "if_noise", True),
         ("PumpedData.plot_iv", "iv", False),
         ("PumpedData.plot_if", "power", True),
         ("PumpedData.plot_if", "power", False),
         ("PumpedData.plot_ivif", "ivif", True),
         ("PumpedData.plot_noise_temp", "noise", True),
         ("PumpedData.plot_yfac_noise_temp", "yfactor", True),
         ("PumpedData.plot_gain_noise_temp", "gain_noise", True),
         ("PumpedData.plot_gain", "gain", True)]
TWO = {"plot_if_noise", "plot_ivif", "plot_noise_temp",
       "plot_yfac_noise_temp", "plot_gain_noise_temp"}
RANGE = {"plot_iv", "plot_if", "plot_ivif", "plot_noise_temp",
         "plot_yfac_noise_temp", "plot_gain_noise_temp", "plot_gain"}
HEIGHT = {"plot_iv", "plot_ivif"}


def c28(rep, thorough):
    rep.rule = ("plotting methods on objects with independent data: the "
                "curves handed to the axes equal the written-down ones")
    lab = Lab(rep)

    def one_plot(item):
        name, spec, have = item
        short = name.split(".")[1]
        b, st, dc, pumped, num = build(lab, have)
        if dc is None or pumped is None:
            rep.count("comparisons")
            lab.rep.undec(name + ": objects not understood")
            return
        obj = dc if name.startswith("DC") else pumped
        canvas = Canvas(lab)
        vmax = lab.num("vmaxplot", pos=True)
        args = {"fig_name": const(None), "ax": const(None)}
        if short in RANGE or short == "plot_dciv":
            args["vmax_plot"] = vmax
        key = short + ("" if have else ", no DC IF data")
        s, out = lab.run(EXP + name, st, args, selfv=obj, opts=False)
        hints = b.hints(dict(NOW))
        s2, want = lab.spec("plots." + spec, st, [obj])
        shown(lab, key, canvas, s2, want, hints)
        if short in RANGE:
            range_of(lab, key, canvas, "x", st, "limits", [vmax], hints)
        if short in HEIGHT:
            range_of(lab, key, canvas, "y", st, "current_at", [obj, vmax],
                     hints)

    def case(item):
        if item[0] == "surface":
            surface(lab, item[1])
        elif item[0] == "simulated":
            simulated(lab, item[1])
        elif item[0] == "overall":
            overall(lab, *item[1:])
        elif item[0] == "response":
            response(lab, *item[1:])
        else:
            one_plot(item)
    todo = list(PLOTS)
    todo += [("surface", x) for x in (True, False)]
    todo += [("simulated", x) for x in ("fit_range", "cut", "default",
                                        "None")]
    todo += [("response", "plot", "response"),
             ("response", "plot_interpolation", "interpolation"),
             ("response", "show_current", "interpolation")]
    todo += [("overall", x) for x in (
        (True, False, True, True), (False, True, False, False),
        (False,) * 4)]
    lab.spread(todo, case)
    need(rep, "comparisons", 40)


def recovered(lab, **kw):
    """an object whose impedance was recovered"""
    b, st, dc, obj, num = build(lab, False, **kw)
    if dc is None or obj is None or len(obj.r) != 1:
        lab.rep.count("comparisons")
        lab.rep.undec("objects not understood")
        return b, st, None, num
    oid = next(iter(obj.r))
    o = st.heap[oid]
    at = dict(o.attrs)
    at["zt"] = lab.num("zt", "complex")
    at["vt"] = lab.num("vt", pos=True)
    at["err_surf"] = lab.array(st, "surf", 2,
                               shape=(tm.num(101), tm.num(201)))
    st.heap[oid] = o.rep(attrs=at)
    return b, st, obj, num


def powers(pt, idx):
    """no power outside the measured range"""
    k, c = (int(round(abs(x))) for x in idx)
    if c == 0:
        return .2 + .05 * k
    if c in (1, 2) and (k < c or k > 42 - c):
        return 0.
    return pt.rnd(("res", k, c), lo=-2 if c < 3 else 0, hi=9)


def pumped_current(pt, idx):
    k = int(round(abs(idx[0])))
    return 0. if k > 55 else pt.rnd(("ip", k), lo=-2, hi=9)


NOW = {("cell", "result"): powers, ("cell", "i"): pumped_current, "zt": .4 - .31j, "vt": .23, "vmaxplot": 3.2, "rlo": .05, "rhi": .95,
       "xlo": -.9, "xhi": .8, "low": .21, "high": .83, "cutlo": .21,
       "cuthi": .13}


def pair(lab, st, *names):
    return lab.seq(st, "tuple", [lab.num(n) for n in names],
                   "pair." + names[0])


def default(lab, st, name):
    """the pair in the default table"""
    s, v = lab.spec("plots.default", st, [const(name)])
    return v


def surface(lab, given):
    def kw(st):
        if not given:
            return {}
        return {"remb_range": pair(lab, st, "rlo", "rhi"),
                "xemb_range": pair(lab, st, "xlo", "xhi")}
    b, st, obj, num = recovered(lab, more=kw)
    if obj is None:
        return
    canvas = Canvas(lab)
    key = "plot_error_surface, %s ranges" % ("given" if given else "default")
    lab.run(EXP + "PumpedData.plot_error_surface", st,
            {"fig_name": const(None), "ax": const(None)}, selfv=obj,
            opts=False)
    hints = b.hints(NOW)
    if given:
        r, x = num["remb_range"], num["xemb_range"]
    else:
        r, x = default(lab, st, "remb_range"), default(lab, st, "xemb_range")
    s2, want = lab.spec("plots.surface", st, [obj, r, x])
    lab.rep.count("comparisons")
    if len(canvas.images) != 1 or len(canvas.images[0][1]) != 3:
        lab.rep.undec(key + ": image not understood")
    else:
        s1, got = canvas.images[0]
        out, why = image(lab, s1, got, s2, want, hints)
        if out is False:
            # the same image, both axes and colours transposed
            s3, turned = lab.spec("plots.turned", s2, [want])
            q, t = image(lab, s1, got, s3, turned, hints)
            if q is not False:
                out, why = q, t
        verdict(lab.rep, key + ": image", out, why)
    s2, want = lab.spec("plots.minimum", st, [obj])
    lab.rep.count("comparisons")
    if len(canvas.notes) != 1 or canvas.notes[0][1] is None:
        lab.rep.undec(key + ": mark not understood")
        return
    s1, got = canvas.notes[0]
    verdict(lab.rep, key + ": marked minimum",
            *lab.cmp(s1, got, s2, want, hints, "mark"))


def image(lab, s1, got, s2, want, hints):
    out, why = True, ""
    for n, a, w in zip(("x", "y", "colour"), got,
                       s2.heap[next(iter(want.r))].items):
        a = grid(lab, s1, n, a, w, s2)
        q, t = lab.cmp(s1, a, s2, w, hints, n)
        if q is False:
            return q, t
        if q is None:
            out, why = q, t
    return out, why


def grid(lab, st, n, a, want, s2):
    """axes may be given as one-dimensional arrays"""
    if len(a.r) != 1 or len(want.r) != 1:
        return a
    e = lab.element(st, next(iter(a.r)))
    f = lab.element(s2, next(iter(want.r)))
    if e is None or f is None or e[0] != 1:
        return a
    k = {"x": 1, "y": 0}.get(n)
    if k is None:
        return a
    return lab.made(st, lambda i: e[2]((i[k],)), 2, f[1])


def simulated(lab, how):
    def kw(st):
        if how == "fit_range":
            return {"fit_range": pair(lab, st, "low", "high")}
        if how == "cut":
            return {"fit_range": const(None), "cut_low": lab.num("cutlo"),
                    "cut_high": lab.num("cuthi")}
        if how == "None":
            return {"fit_range": const(None)}
        return {}
    b, st, obj, num = recovered(lab, more=kw)
    if obj is None:
        return
    key = "plot_simulated, " + {"fit_range": "fit_range", "cut": "cut_low "
                                "and cut_high", "None": "fit_range=None",
                                "default": "default fit range"}[how]
    got = {}

    def solve(it, c, args, kwargs, st, node):
        got["cct"] = (st.copy(), args[0] if args else kwargs.get("cct"))
        return lab.array(st, "vj", 3, True)

    def current(it, c, args, kwargs, st, node):
        o = None
        v = kwargs.get("cct", args[1] if len(args) > 1 else None)
        if v is not None and len(v.r) == 1:
            o = st.heap[next(iter(v.r))]
        if o is None or "vb" not in (o.attrs or {}):
            return None
        got["vb"] = o.attrs["vb"]
        e = lab.element(st, next(iter(o.attrs["vb"].r)))
        if e is None:
            return None
        vj = kwargs.get("vj", args[0] if args else None)
        f = kwargs.get("freq_list", args[3] if len(args) > 3 else None)
        got["freq"] = (st.copy(), f)
        got["vj"] = vj
        return lab.array(st, "sim", 2, True, (tm.num(2), e[1][0]))
    lab.it.hooks = dict(lab.it.hooks)
    lab.it.hooks.update({
        "qmix.harmonic_balance.harmonic_balance": solve,
        "qmix.qtcurrent.qtcurrent": current})
    canvas = Canvas(lab)
    vmax = lab.num("vmaxplot", pos=True)
    lab.run(EXP + "PumpedData.plot_simulated", st,
            {"fig_name": const(None), "ax": const(None), "vmax_plot": vmax},
            selfv=obj, opts=False)
    if "cct" not in got or "vb" not in got or "freq" not in got:
        lab.rep.count("comparisons")
        lab.rep.undec(key + ": simulation not understood")
        return
    hints = b.hints(NOW)
    s2 = canvas.lines[-1][1].copy() if canvas.lines else st
    if how == "cut":
        low = num["cut_low"]
        _, high = lab.spec("plots.other_end", st, [num["cut_high"]])
    else:
        v = num["fit_range"] if how == "fit_range" else \
            default(lab, st, "fit_range")
        low, high = st.heap[next(iter(v.r))].items
    cur = lab.array(s2, "sim", 2, True, (tm.num(2), lab.element(
        s2, next(iter(got["vb"].r)))[1][0]))
    s2, want = lab.spec("plots.simulated", s2, [obj, got["vb"], cur, low,
                                                high])
    shown(lab, key, canvas, s2, want, hints)
    # the simulated circuit
    s1, cct = got["cct"]
    s2, want = lab.spec("plots.circuit", s1, [obj])
    s3, have = lab.spec("plots.of_circuit", s1, [cct])
    lab.same(key + ": simulated circuit", s3, have, s2, want, hints=hints)
    s1, f = got["freq"]
    s2, want = lab.spec("plots.tones", s1, [obj])
    lab.same(key + ": frequencies of the current", s1, f, s2, want,
             hints=hints)
    range_of(lab, key, canvas, "x", st, "limits", [vmax], hints)
    range_of(lab, key, canvas, "y", st, "current_at", [obj, vmax], hints)


def overall(lab, good):
    """figures of merit of several measurements"""
    b, st, dc, obj, num = build(lab, True)
    if dc is None or obj is None or len(obj.r) != 1:
        lab.rep.count("comparisons")
        lab.rep.undec("objects not understood")
        return
    o = st.heap[next(iter(obj.r))]
    data, extra = [], {}
    for k, g in enumerate(good):
        at = dict(o.attrs)
        for n in ("freq", "tn_best", "g_db", "alpha", "zj_if", "vt", "vph",
                  "if_noise"):
            at[n] = lab.num("%s.%d" % (n, k), pos=True)
            extra["%s.%d" % (n, k)] = 1.3 + .37 * k + .11 * len(extra)
        for n in ("zt", "zw"):
            at[n] = lab.num("%s.%d" % (n, k), "complex")
            extra["%s.%d" % (n, k)] = .4 + .03 * len(extra) - .2j
        at["fit_good"] = const(g)
        at["good_if_noise_fit"] = const(not g if k else True)
        for n in ("voltage", "current"):
            at[n] = lab.array(st, "%s.%d" % (n, k), shape=(b.m,))
        for n in ("iv_file", "filename_hot", "filename_cold"):
            at[n] = const("%s-%d.csv" % (n, k))
        oid = ("in", "data.%d" % k, "inst")
        st.heap[oid] = o.rep(attrs=at)
        data.append(V(r=frozenset([oid]), d=EMPTY))
    lst = lab.seq(st, "list", data, "data")
    canvas = Canvas(lab)
    s1, _ = lab.run("qmix.exp.exp_data.plot_overall_results", st,
                    {"dciv": dc, "data_list": lst,
                     "fig_folder": const("figs")}, opts=False)
    s2, want = lab.spec("plots.overall", st, [dc, lst])
    key = "plot_overall_results, good fits: %s" % "".join(
        "ny"[g] for g in good)
    shown(lab, key, canvas, s2, want, b.hints(extra))


def response(lab, method, spec):
    lab.it.hooks = {}
    st = lab.state()
    n = tm.atom("npts", True, True, True)
    tm.bound(n, 40)
    v, i = (lab.array(st, k, shape=(n,)) for k in ("v", "i"))
    s, obj = lab.run("qmix.respfn.RespFn", st, {"voltage": v, "current": i},
                     opts=False, kw={"verbose": const(False)})
    if obj is None:
        lab.rep.count("comparisons")
        lab.rep.undec("response function not understood")
        return
    canvas = Canvas(lab)
    s1, _ = lab.run("qmix.respfn.RespFn." + method, s,
                    {"fig_name": const(None), "ax": const(None)},
                    selfv=obj, opts=False)
    s2, want = lab.spec("plots." + spec, s, [obj])
    shown(lab, "RespFn." + method, canvas, s2, want, [])


def range_of(lab, key, canvas, axis, st, spec, args, hints):
    """the last limits set"""
    lab.rep.count("comparisons")
    got = canvas.limits.get(axis, [])
    if axis == "y":
        got = got[:1]
    key = "%s: limits of the %s axis" % (key, axis)
    if not got:
        lab.rep.undec(key + " not set")
        return
    s1, a = got[-1]
    if set(a) != {"lo", "hi"}:
        lab.rep.undec(key + " not understood")
        return
    s2, want = lab.spec("plots." + spec, st, args)
    lo, hi = s2.heap[next(iter(want.r))].items
    for n, x, y in (("lower", a["lo"], lo), ("upper", a["hi"], hi)):
        r, w = lab.cmp(s1, x, s2, y, hints, n)
        if r is not True:
            break
    verdict(lab.rep, key, r, w)


def build(lab, have, more=None):
    b = Bench(lab)
    if b.dcif is None or b.ifmeta is None:
        return b, None, None, None, None
    num = options(lab, b.st)
    b.hook()
    args = {"dciv": b.data["dciv"], "dcif": b.data["dcifdata"]
            if have else const(None)}
    s, dc = lab.run(EXP + "DCData", b.st, args, kw=num)
    if dc is None:
        return b, s, None, None, num
    num["analyze_iv"] = const(False)
    if more is not None:
        num.update(more(s))
    args = {"ivdata": b.data["iv"], "dciv": dc, "if_hot": b.data["hot"],
            "if_cold": b.data["cold"]}
    s, out = lab.run(EXP + "PumpedData", s, args, opts=False, kw=num)
    return b, s, dc, out, num


CHECKS = {"C28": c28}
