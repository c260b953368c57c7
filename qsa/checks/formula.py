"""C11-C22: computed values against written-down formulas."""
from .. import terms as tm
from ..lab import Lab
from ..project import AnalysisBroken
from ..values import NONE, const, unk

CCT = "qmix.circuit.EmbeddingCircuit"


def positive_real(pt, idx):
    """cells whose real part is positive"""
    k = tuple(int(round(x.real if isinstance(x, complex) else x))
              for x in idx)
    return complex(pt.rnd(("re", k), pos=True), pt.rnd(("im", k)))


def reactive(pt, idx):
    """cells without real part"""
    k = tuple(int(round(x.real if isinstance(x, complex) else x))
              for x in idx)
    return complex(0., pt.rnd(("im", k)))


POWER = {"W": 1.0, "mW": 1e-3, "uW": 1e-6, "nW": 1e-9, "pW": 1e-12,
         "fW": 1e-15}
POWER_DB = {"dBm": 1e-3, "dBW": 1.0}


def cases(u):
    return [u, u.lower(), u.upper()]


def c11(rep, thorough):
    rep.rule = ("every unit name of every conversion of the circuit: the "
                "value number of the result (and of every array of the "
                "circuit afterwards) equals that of the documented formula "
                "for symbolic voltages, impedances, frequencies, tone and "
                "harmonic numbers")
    lab = Lab(rep)
    size = tm.atom("cct.vb_npts", True, True, True)
    hints = [{"vgap": 1.7, "rn": 2.3, "cct.vgap": 1.7, "cct.rn": 2.3,
              "cct.fgap": 0.9, "power": 0.4, "freq": 0.6,
              "f": 1, "p": 2,
              ("cell", "cct.zt"): positive_real}]
    hints.append(dict(hints[0]))
    hints[1].update({"f": 2, "p": 1})
    hints.append(dict(hints[0]))
    hints[2][("cell", "cct.zt")] = reactive
    for nf, npp in ((2, 2), (4, 3)) if thorough else ((2, 2),):
        st = lab.state()
        cct = lab.circuit(st, nf, npp)
        f, p = lab.num("f", "int"), lab.num("p", "int")
        power, value = lab.num("power"), lab.num("value")
        for db, table in ((False, POWER), (True, POWER_DB)):
            for unit, size in table.items():
                for u in cases(unit):
                    rep.count("unit_names")
                    a = lab.run(CCT + ".available_power", st,
                                {"f": f, "p": p, "units": const(u)}, cct)
                    b = lab.spec("circuit.available_" + (
                        "db" if db else "linear"), st,
                        [cct, f, p, const(size)])
                    lab.same("available_power in %s" % unit, *(a + b),
                             hints=hints)
                    a, _ = lab.run(CCT + ".set_available_power", st,
                                   {"power": power, "f": f, "p": p,
                                    "units": const(u)}, cct)
                    b = lab.spec("circuit.set_power_" + (
                        "db" if db else "linear"), st,
                        [cct, power, f, p, const(size)])
                    lab.same("set_available_power in %s" % unit, a, cct,
                             *b, hints=hints)
        for unit, size in {"Hz": 1.0, "MHz": 1e6, "GHz": 1e9,
                           "THz": 1e12}.items():
            for u in cases(unit):
                rep.count("unit_names")
                a, _ = lab.run(CCT + ".set_freq", st,
                               {"value": value, "f": f, "units": const(u)},
                               cct)
                b = lab.spec("circuit.set_freq", st,
                             [cct, value, f, const(size)])
                lab.same("set_freq in %s" % unit, a, cct, *b, hints=hints)
        for unit, size in {"V": 1.0, "mV": 1e-3}.items():
            for u in cases(unit):
                rep.count("unit_names")
                a, _ = lab.run(CCT + ".set_freq", st,
                               {"value": value, "f": f, "units": const(u)},
                               cct)
                b = lab.spec("circuit.set_photon", st,
                             [cct, value, f, const(size)])
                lab.same("set_freq in %s" % unit, a, cct, *b, hints=hints)
        for u in cases("norm"):
            a, _ = lab.run(CCT + ".set_freq", st,
                           {"value": value, "f": f, "units": const(u)}, cct)
            b = lab.spec("circuit.set_norm", st, [cct, value, f])
            lab.same("set_freq normalized", a, cct, *b, hints=hints)
        zj = lab.num("zj")
        alpha = lab.num("alpha")
        a, _ = lab.run(CCT + ".set_alpha", st, {
            "alpha": alpha, "f": f, "p": p, "zj": zj}, cct)
        b = lab.spec("circuit.set_alpha", st, [cct, alpha, f, p, zj])
        lab.same("set_alpha", a, cct, *b, hints=hints)
        a = lab.run(CCT + ".initialize_vj", st, {}, cct)
        b = lab.spec("circuit.empty_vj", st, [cct])
        lab.same("initialize_vj", *(a + b), hints=hints)
        a = lab.run(CCT + ".vph", st, {}, cct)
        b = lab.spec("circuit.photon", st, [cct])
        lab.same("vph", *(a + b), hints=hints)
    # construction
    st = lab.state()
    n = {k: lab.num(k, "int", integer=True, pos=True)
         for k in ("num_f", "num_p", "vb_npts")}
    x = {k: lab.num(k) for k in ("vb_min", "vb_max", "vgap", "fgap", "rn")}
    sweep = ["num_f", "num_p", "vb_min", "vb_max", "vb_npts"]
    allv = dict(n)
    allv.update(x)
    sp = [{"num_f": 2, "num_p": 3, "vb_npts": 5}]
    for spec, given in (("built_vgap", sweep + ["vgap", "rn"]),
                        ("built_fgap", sweep + ["fgap", "rn"]),
                        ("built_both", ["vgap", "fgap", "rn"]),
                        ("built_no_rn", ["vgap"]),
                        ("built_plain", ["rn"])):
        args = {k: allv[k] for k in given}
        for k in ("vgap", "fgap", "rn"):
            args.setdefault(k, None)
        for k in sweep:
            args.setdefault(k, None)
        args["name"] = None
        a = lab.run(CCT, st, args)
        b = lab.spec("circuit." + spec, st, [allv[k] for k in given])
        lab.same("circuit from " + spec[6:], *(a + b), hints=sp)
    need(rep, "comparisons", 70)


def need(rep, name, n):
    if rep.counts.get(name, 0) < n:
        raise AnalysisBroken("only %d %s (expected %d)"
                             % (rep.counts.get(name, 0), name, n))


MODELS = "qmix.mathfn.ivcurve_models."
RESP = "qmix.respfn."


def inputs(lab, st, name, n=None):
    """the same number as scalar and as element of an array"""
    out = [("number", lab.num(name)),
           ("array", lab.array(st, name + "s", shape=None if n is None
                               else (n,)))]
    if n is None:
        out.append(("table", lab.array(st, name + "t", 2)))
    return out


def c22(rep, thorough):
    rep.rule = ("every I-V model, the Kramers-Kronig transform and every "
                "response function class: the value number of the result "
                "(or attribute) equals that of the written-down formula; "
                "what the derivative returns is the derivative of the very "
                "spline that is used for the current")
    lab = Lab(rep)
    st = lab.state()
    n = tm.atom("npts", True, True, True)
    tm.bound(n, 20)
    hints = [{"vgap": 1.3, "rn": 0.7, "rsg": 5., "agap": 3., "order": 3,
              "npts": 23, "kk_n": 2, "p_order": 2, "v_smear": 0.11,
              ("cell", "volt"): lambda pt, i: 0.1 * i[0]}]
    edge = [dict(hints[0], v=1., vs=1.), dict(hints[0], v=-1.),
            dict(hints[0], v=0.3), dict(hints[0], v=1.6),
            dict(hints[0], v=-2.1)]
    for h, x in zip(edge, (1., -1., 0.3, 1.6, -2.1)):
        h[("cell", "vs")] = lambda pt, idx, x=x: x if pt.rnd(
            ("at", idx), integer=True, lo=0, hi=1) else None
    P = {k: lab.num(k) for k in ("vgap", "rn", "rsg", "agap", "a0", "ileak",
                                 "vnot", "inot", "anot", "ioff", "max_kk")}
    order = lab.num("order", "int")
    four = ["vgap", "rn", "rsg", "agap"]
    for kind, v in inputs(lab, st, "v"):
        def one(name, args, spec, sargs, key=None):
            a = lab.run(MODELS + name, st, dict(args, voltage=v))
            b = lab.spec("models." + spec, st, [v] + sargs)
            lab.same("%s of a %s" % (key or name, kind.replace(
                "array", "one-dimensional array")), *(a + b),
                hints=hints + edge)
        one("perfect", {}, "perfect", [])
        one("perfect_kk", {"max_kk": P["max_kk"]}, "perfect_kk",
            [P["max_kk"]])
        one("polynomial", {"order": order}, "polynomial", [order])
        ex = {k: P[k] for k in four}
        for m in ("fixed", "Fixed", "corrected", "CORRECTED"):
            one("exponential", dict(ex, model=const(m)),
                "exponential_fixed", [P[k] for k in four],
                "exponential (fixed)")
        for m in ("original", "ORIGINAL"):
            one("exponential", dict(ex, model=const(m)),
                "exponential_original", [P[k] for k in four],
                "exponential (original)")
        full = four + ["a0", "ileak", "vnot", "inot", "anot", "ioff"]
        one("expanded", {k: P[k] for k in full}, "expanded",
            [P[k] for k in full])
    # Kramers-Kronig transform
    volt = lab.array(st, "volt", shape=(n,))
    curr = lab.array(st, "curr", shape=(n,))
    kkn = lab.num("kk_n", "int", integer=True, pos=True)
    a = lab.run("qmix.mathfn.kktrans.kk_trans", st,
                {"v": volt, "i": curr, "n": kkn})
    b = lab.spec("response.kk", st, [volt, curr, kkn])
    lab.same("kk_trans", *(a + b), hints=hints)
    # response functions
    smear, limit = lab.num("v_smear", pos=True), lab.num("vlimit")
    k = lab.num("spline_order", "int", integer=True, pos=True)
    kw = {"kk_n": kkn, "spline_order": k, "verbose": const(False)}
    data = {"voltage": volt, "current": curr}
    cases_ = [
        ("RespFn", data, {}, "plain", [volt, curr, kkn]),
        ("RespFn", data, {"v_smear": smear}, "smeared",
         [volt, curr, kkn, smear]),
        ("RespFnFromIVData", data, {"vlimit": limit}, "from_data",
         [volt, curr, kkn, limit]),
        ("RespFnPolynomial", {"p_order": order}, {}, "from_polynomial",
         [order, kkn]),
        ("RespFnExponential", ex, {}, "from_exponential",
         [P[q] for q in four] + [kkn]),
        ("RespFnPerfect", {}, {}, "from_perfect", []),
        ("RespFnPerfect", {}, {"v_smear": smear}, "from_perfect_smeared",
         [kkn, smear]),
    ]
    for cls, args, extra, spec, sargs in cases_:
        name = cls + (" with v_smear" if "v_smear" in extra else "")
        opts = dict(kw)
        opts.setdefault("v_smear", const(None))
        opts.update(extra)
        s1, r = lab.run(RESP + cls, st, args, kw=opts)
        b = lab.spec("response." + spec, st, sargs)
        key = "attributes of " + name
        if spec == "from_perfect_smeared":
            c = lab.spec("response.smeared_with_impulse", st, sargs)
            if lab.cmp(s1, r, c[0], c[1], hints, "result")[0] is True:
                key = "RespFnPerfect smears an impulse at the gap as well"
        lab.same(key, s1, r, *b, hints=hints)
        if r is None:
            continue
        rep.count("response_functions")
        for kind, v in inputs(lab, s1, "v"):
            got = {}
            for m in ("idc", "ikk", "didc", "dikk", "resp", "resp_conj",
                      "resp_swap", "__call__"):
                if spec == "from_perfect" and m in ("didc", "dikk"):
                    continue      # recorded finding of C26
                got[m] = lab.run(RESP + cls + "." + m, s1, {"vbias": v}, r)
            for m, f in (("resp", "resp"), ("__call__", "resp"),
                         ("resp_conj", "conj"), ("resp_swap", "swap")):
                b = lab.spec("response." + f, s1, [r, v])
                lab.same("%s.%s" % (name, m), *(got[m] + b), hints=hints)
            if spec == "from_perfect":
                for m, f, x in (("idc", "perfect", []),
                                ("ikk", "perfect_kk", [const(100.)])):
                    b = lab.spec("models." + f, s1, [v] + x)
                    lab.same("%s.%s" % (name, m), *(got[m] + b),
                             hints=hints + edge)
                continue
            for m, dm, xa, ya in (
                    ("idc", "didc", "voltage", "current"),
                    ("ikk", "dikk", "voltage_kk", "current_kk")):
                spline(lab, name, m, dm, got, s1, r, v, k, xa, ya, hints)
    need(rep, "comparisons", 100)


def spline(lab, name, m, dm, got, st, r, v, k, xa, ya, hints):
    """the value is a spline through some points of the published curve, the
    derivative is that spline's derivative"""
    rep = lab.rep
    o = st.heap[next(iter(r.r))]
    X, Y = o.attrs.get(xa), o.attrs.get(ya)
    key = "%s.%s" % (name, m)
    s1, v1 = got[m]
    t = lab.any_term(s1, v1)
    best = None
    for idx in lab.sampling(t):
        s2 = st.copy()
        ia = lab.made(s2, idx, 1, None, "int")
        b = lab.spec("response.spline", s2, [X, Y, ia, k, v])
        res, why = lab.cmp(s1, v1, b[0], b[1], hints, "result")
        if best is None or res is True or best[0] is None:
            best = (res, why, s2, ia)
        if res is True:
            break
    lab.ncmp += 1
    rep.count("comparisons")
    if best is None or best[0] is None:
        rep.undec("%s (%s)" % (key, best[1] if best else "no spline"))
        return
    if best[0] is False:
        rep.finding(key, "no spline through points (%s, %s): %s"
                    % (xa, ya, best[1]))
        return
    rep.count("decided")
    b = lab.spec("response.slope", best[2], [X, Y, best[3], k, v])
    lab.same("%s.%s" % (name, dm), *(got[dm] + b), hints=hints)


CHECKS = {"C11": c11, "C22": c22}
