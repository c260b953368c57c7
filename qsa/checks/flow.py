"""Option flow, validation and outcome properties."""
import re

from .. import terms as tm
from ..drive import Drive
from ..entries import TYPES, FUNCS, CLASSES
from ..par import par
from ..project import AnalysisBroken
from ..values import V, O, NONE, UNBOUND, TRUEV, FALSEV, const, unk, join
from .effects import (check as _check, CHECKS as _C, params_of, resp_kw,
                      where)

CHECKS = {}


def check(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn
    return deco


X = "qmix.exp."
IMPORTERS = [X + "exp_data.DCData", X + "exp_data.PumpedData",
             X + "iv_data.dciv_curve", X + "iv_data.iv_curve",
             X + "if_data.dcif_data", X + "if_data.if_data",
             X + "if_response.if_response"]


def option_table(d):
    pv = d.it.base.loc.get((("mod", X + "parameters"), "params"))
    if pv is None or len(pv.r) != 1:
        raise AnalysisBroken("default table of options is gone")
    oid = next(iter(pv.r))
    return oid, d.it.base.heap[oid]


def entry(d, name):
    for n, k, c in d.entries:
        if n == name:
            return n, k, c
    raise AnalysisBroken("public entry %s is gone" % name)


def results(d, r):
    """attribute (or result component) -> dependence labels"""
    out = {}
    it = d.it
    if r.kind == "class":
        for oid in r.value.r:
            for a, v in (r.st.heap[oid].attrs or {}).items():
                if a == "kwargs":
                    continue
                out.setdefault(a, set()).update(map(str, it.deps(r.st, v)))
        return out
    out["result"] = set(map(str, it.deps(r.st, r.value)))
    return out


# ---------------------------------------------------------------- C06
def c06_job(d, full_keys, gen):
    def job(x):
        name, absent = x
        st = d.w.state()
        kw = {k: v for k, v in d.w.options(st, present=True).items()
              if k != absent}
        r = d.run(*entry(d, name), st=st, opts=False, extra_kw=kw)
        return None if r.dead else results(d, r)
    return job


@check("C06")
def options_honoured(rep, thorough):
    """a given option is used; a missing one falls back to its default"""
    rep.rule = (
        "the entries of the default table are labelled; every importer is "
        "analysed with all options given, and with each single option "
        "missing: (1) with an option given, no result depends on its table "
        "entry; (2) with exactly option k missing no result depends on the "
        "table entry of another option; (3) every result that depends on a "
        "given k depends on the table entry of k when k is missing")
    d = Drive(terms=False)
    oid, o = option_table(d)
    keys = [k[1] for k in o.items]
    if len(keys) < 30:
        raise AnalysisBroken("only %d options in the table" % len(keys))
    # arbitrary table entries, so that no branch is decided by them
    from ..entries import optval
    st0 = d.it.base
    d.it.base.heap[oid] = o.rep(items={
        k: optval(d.w, st0, k[1], V(v.c, v.t, v.r, v.f),
                  "default:" + k[1]) for k, v in o.items.items()})
    names = [n for n in IMPORTERS]
    for n in names:
        entry(d, n)
    jobs = [(n, None) for n in names] + [(n, k) for n in names for k in keys]
    out = dict(zip(jobs, par(c06_job(d, keys, None), jobs)))
    rep.count("importers", len(names))
    rep.count("options", len(keys))
    for n in names:
        full = out[(n, None)]
        if full is None:
            raise AnalysisBroken("%s never returns" % n)
        for a, dp in sorted(full.items()):
            rep.count("results_checked")
            for x in sorted(dp):
                if x.startswith("default:"):
                    k = root(x[8:])
                    rep.finding(
                        "%s of %s ignores given %s" % (a, n, k),
                        "with every option given, %s of %s still depends on "
                        "the default of '%s'" % (a, n, k))
        used = {root(x[3:]) for dp in full.values() for x in dp
                if x.startswith("kw.")}
        rep.count("option_uses", len(used))
        for k in keys:
            res = out[(n, k)]
            if res is None:
                continue
            rep.count("obligations")
            for a, dp in sorted(res.items()):
                for x in sorted(dp):
                    if x.startswith("default:") and root(x[8:]) != k:
                        rep.finding(
                            "%s of %s uses default %s for %s"
                            % (a, n, root(x[8:]), k),
                            "without option '%s', %s of %s depends on the "
                            "default of '%s'" % (k, a, n, root(x[8:])))
                has = any(root(x[3:]) == k for x in full.get(a, ())
                          if x.startswith("kw."))
                if has and not any(x.startswith("default:") for x in dp):
                    rep.finding(
                        "%s of %s lacks default of %s" % (a, n, k),
                        "%s of %s depends on option '%s' when it is given "
                        "but not on its entry in the default table when it "
                        "is missing" % (a, n, k))
    if rep.counts["option_uses"] < 60:
        raise AnalysisBroken("importers no longer seen using options")


def root(label):
    return label.split(".")[0].split("[")[0]


# ---------------------------------------------------------------- C07
UNITS = "v_fmt v_multiplier".split()
IVK = ("v_fmt i_fmt v_multiplier i_multiplier voffset ioffset rseries "
       "filter_data filter_theta filter_nwind filter_npoly").split()
IFK = "v_fmt v_multiplier rseries vmax ifdata_npts ifdata_sigma".split()
BEST = "idx_best tn_best gain_best g_db v_best".split()
IMP = "zt vt fit_good zw alpha err_surf".split()
IVA = "current rdyn".split() + IMP
IFA = ("good_if_noise_fit if_hot if_cold tn gain if_noise corr "
       "shot_slope").split() + BEST + ["zj_if"]

#: what an option must reach
MUST = {
    "DCData": {
        "voltage": "vmax npts v_fmt v_multiplier vgap".split(),
        "current": IVK + "vmax npts vgap voffset_range".split(),
        "vgap": ["vgap"] + UNITS + ["voffset", "voffset_range"],
        "rn": ["vrn"] + IVK, "rsg": ["vrsg"] + IVK,
        "q": ["vrn", "vrsg"], "rna": ["area", "vrn"],
        "jc": ["area", "vrn", "vgap"], "vleak": ["vleak"],
        "ileak": ["vleak"] + IVK,
        "offset": ["voffset", "ioffset", "voffset_range"],
        "resp": IVK + ["vgap"], "resp_smear": IVK + ["v_smear"],
        "if_data": IFK, "if_noise": IFK + ["vshot"],
        "corr": IFK + ["vshot"], "shot_slope": IFK + ["vshot"],
        "comment": ["comment"], "dciv": [],
    },
    "PumpedData": {
        "freq": ["freq"], "vph": ["freq"],
        "voltage": ["npts", "vmax"], "current": IVK + ["npts", "vmax"],
        "zt": IVK + "freq fit_range remb_range xemb_range zemb alpha_max "
        "num_b npts vmax analyze_iv".split(),
        "vt": IVK + "freq fit_range remb_range xemb_range zemb alpha_max "
        "num_b npts vmax analyze_iv".split(),
        "err_surf": IVK + "freq fit_range remb_range xemb_range alpha_max "
        "num_b".split(),
        "alpha": IVK + "freq fit_range alpha_max num_b".split(),
        "tn": IFK + "t_hot t_cold analyze_if".split(),
        "gain": IFK + "t_hot t_cold vshot analyze_if".split(),
        "if_hot": IFK, "if_cold": IFK,
        "tn_best": IFK + "t_hot t_cold vbest best_pt".split(),
        "gain_best": IFK + "t_hot t_cold vbest best_pt vshot".split(),
        "g_db": IFK + "t_hot t_cold vbest best_pt vshot".split(),
        "v_best": IFK + "vbest best_pt".split(),
        "if_noise": IFK + ["vshot"], "corr": IFK + ["vshot"],
        "shot_slope": IFK + ["vshot"], "zj_if": IVK + ["vbest", "best_pt"],
    },
}

#: option -> the only results it may influence
ONLY = {
    "DCData": {
        "area": ["rna", "jc"], "vrsg": ["dc", "rsg", "q"],
        "vleak": ["vleak", "ileak"], "v_smear": ["resp_smear"],
        "vshot ifdata_npts ifdata_sigma":
            "if_data dcif if_noise corr shot_slope if_fit".split(),
        "comment": ["comment"],
        "freq fit_range remb_range xemb_range zemb alpha_max num_b t_cold "
        "t_hot vbest best_pt ifresp_maxtn analyze_iv analyze_if": [],
    },
    "PumpedData": {
        "i_fmt i_multiplier voffset ioffset filter_theta filter_nwind "
        "filter_npoly": IVA + ["zj_if"],
        "fit_range remb_range xemb_range zemb alpha_max num_b": IMP,
        "ifdata_npts ifdata_sigma vshot analyze_if":
            IFA + ["filename_hot", "filename_cold"],
        "t_hot t_cold":
            "if_hot if_cold tn gain".split() + BEST + ["zj_if"],
        "best_pt vbest": BEST + ["zj_if"],
        "analyze_iv": IMP,
        "vrn vrsg vleak area voffset_range v_smear ifresp_maxtn vgap": [],
        "comment": ["comment"],
    },
}

#: results that must not mix with another measurement's data
DATA_NOT = {
    "DCData": {
        "dcif": "voltage current dc vgap igap fgap rn rsg q rna jc offset "
                "vint ileak resp resp_smear".split()},
    "PumpedData": {
        "ivdata": "voltage voltage_dc current_dc vgap rn freq vph tn gain "
                  "if_noise corr shot_slope".split() + BEST,
        "if_hot if_cold": "voltage current rdyn".split() + IMP},
}
DATA_MUST = {
    "DCData": {"dciv": "voltage current dc vgap igap fgap rn rsg q rna jc "
                       "offset vint ileak resp resp_smear if_data if_noise "
                       "corr".split(),
               "dcif": "if_data dcif if_noise corr shot_slope".split()},
    "PumpedData": {"ivdata": "current rdyn zt vt alpha err_surf "
                             "zj_if".split(),
                   "dciv": "voltage current zt vt vgap rn".split(),
                   "if_hot": "if_hot tn gain tn_best gain_best "
                             "v_best".split(),
                   "if_cold": "if_cold tn gain tn_best gain_best "
                              "v_best".split()},
}


def scenario(d, name, given, present=None):
    """run an importer with some options fixed; the rest may be given"""
    st = d.w.state()
    kw = d.w.options(st)
    for k, v in given.items():
        kw[k] = v(st, "kw." + k) if callable(v) else v.add(
            frozenset(["kw." + k]))
    return d.run(*entry(d, name), st=st, opts=False, extra_kw=kw)


#: (importer, options fixed, result, options the result may depend on or
#: None, options it may not depend on, data it may not depend on)
def num(d):
    return lambda st, lab: d.w.make(st, "num", lab)


def conditional(d):
    n = num(d)
    zero = const(0.0)
    T, F = TRUEV, FALSEV
    out = []
    D, P = X + "exp_data.DCData", X + "exp_data.PumpedData"
    for nm, v in (("value", n), ("zero", zero)):
        out.append((D, {"voffset": v, "ioffset": v}, "offset (%s)" % nm,
                    "offset", {"voffset", "ioffset"}, None, {"dciv"}))
        out.append((X + "iv_data.iv_curve", {"voffset": v, "ioffset": v},
                    "offset (%s)" % nm, "result", None, None,
                    {"dc.offset"}))
    out.append((D, {"vgap": n}, "given vgap", "voltage",
                {"vgap", "vmax", "npts"}, None, {"dciv"}))
    out.append((D, {"vgap": n}, "given vgap", "vgap", {"vgap"}, None,
                {"dciv"}))
    out.append((D, {"filter_data": F}, "no filter", "current", None,
                {"filter_theta", "filter_nwind", "filter_npoly"}, set()))
    out.append((D, {"filter_data": F}, "no filter", "rn", None,
                {"filter_theta", "filter_nwind", "filter_npoly"}, set()))
    out.append((D, {"voffset": n, "ioffset": n}, "given offset", "current",
                None, {"voffset_range"}, set()))
    out.append((P, {"filter_data": F}, "no filter", "current", None,
                {"filter_theta", "filter_nwind", "filter_npoly"}, set()))
    out.append((P, {"zemb": n, "analyze_iv": T}, "given zemb", "zt",
                {"zemb", "analyze_iv"}, None, {"ivdata"}))
    out.append((P, {"vbest": n, "analyze_if": T}, "given vbest", "tn_best",
                None, {"best_pt"}, set()))
    out.append((P, {"analyze_if": F}, "IF analysis off", "*", None, {
        "t_hot", "t_cold", "vbest", "best_pt", "vshot", "ifdata_npts",
        "ifdata_sigma"}, set()))
    out.append((P, {"analyze_iv": F}, "I-V analysis off", "*", None, {
        "fit_range", "remb_range", "xemb_range", "zemb", "alpha_max",
        "num_b"}, set()))
    return out


#: parameters that only report or guard, and so need not reach a result
NO_RESULT = {"verbose", "check", "fig_name", "ax", "self"}
SIM_MUST = {
    "qmix.harmonic_balance.harmonic_balance":
        "cct.freq cct.num_f cct.num_p cct.vb cct.vt cct.zt num_b max_it "
        "stop_rerror vj_initial damp_coeff mode zj_guess".split(),
    "qmix.qtcurrent.qtcurrent":
        "cct.freq cct.num_f cct.num_p cct.vb vj freq_list num_b "
        "resp_matrix".split(),
    "qmix.qtcurrent.interpolate_respfn":
        "cct.freq cct.num_f cct.vb num_b".split(),
}
RESP_MUST = "max_npts_dc max_npts_kk v_smear".split()


@check("C07")
def option_scope(rep, thorough):
    """options act where documented, and only there"""
    rep.rule = (
        "data and control dependence of every result: each option and each "
        "measurement must be among the sources of the results it is "
        "documented to control (absence is definite, the analysis "
        "over-approximates) and must not be among the sources of results "
        "it is documented not to touch, also under fixed values of the "
        "switches; every parameter of a public computation must reach its "
        "result or its circuit")
    d = Drive(terms=False)
    it = d.it
    for short, must in MUST.items():
        name = X + "exp_data." + short
        r = d.run(*entry(d, name))
        if r.dead:
            raise AnalysisBroken("%s never returns" % name)
        res = results(d, r)
        opt = {a: {root(x[3:]) for x in dp if x.startswith("kw.")}
               for a, dp in res.items()}
        dat = {a: {root(x) for x in dp} for a, dp in res.items()}
        rep.count("results_analysed", len(res))
        for a, ks in must.items():
            if a not in res:
                continue
            for k in ks:
                rep.count("must_obligations")
                if k not in opt[a]:
                    rep.finding("%s.%s ignores %s" % (short, a, k),
                                "%s.%s does not depend on option '%s'"
                                % (short, a, k))
        for a, ks in DATA_MUST[short].items():
            for at in ks:
                if at not in res:
                    continue
                rep.count("must_obligations")
                if a not in dat[at]:
                    rep.finding("%s.%s ignores %s" % (short, at, a),
                                "%s.%s does not depend on the data '%s'"
                                % (short, at, a))
        for ks, ok in ONLY[short].items():
            for k in ks.split():
                for a in sorted(res):
                    if a in ok:
                        continue
                    rep.count("must_not_obligations")
                    if k in opt[a]:
                        rep.finding(
                            "%s.%s depends on %s" % (short, a, k),
                            "%s.%s depends on option '%s', which is "
                            "documented for %s only"
                            % (short, a, k, ", ".join(ok) or "other data"))
        for ks, bad in DATA_NOT[short].items():
            for k in ks.split():
                for a in bad:
                    rep.count("must_not_obligations")
                    if k in dat.get(a, ()):
                        rep.finding("%s.%s depends on data %s" % (short, a,
                                                                  k),
                                    "%s.%s depends on the measurement '%s'"
                                    % (short, a, k))
        if len([a for a in must if a in res]) < 6:
            raise AnalysisBroken("results of %s are gone" % short)
    for name, given, txt, attr, only, never, nodata in conditional(d):
        r = scenario(d, name, given)
        if r.dead:
            raise AnalysisBroken("%s with %s never returns" % (name, txt))
        for a, dp in sorted(results(d, r).items()):
            if attr not in ("*", a) or a == "dciv":
                continue
            if attr == "*" and a.startswith("filename"):
                continue
            ks = {root(x[3:]) for x in dp if x.startswith("kw.")}
            ds = {n for n in nodata for x in dp
                  if x == n or x.startswith((n + ".", n + "["))}
            rep.count("conditional_obligations")
            bad = (ks - only if only is not None else set()) | \
                (ks & (never or set())) | ds
            if bad:
                rep.finding(
                    "%s.%s depends on %s (%s)" % (
                        name.split(".")[-1], a, sorted(bad), txt),
                    "%s: %s of %s still depends on %s"
                    % (txt, a, name, ", ".join(sorted(bad))))
            lost = (only or set()) - ks
            if lost:
                rep.finding(
                    "%s.%s ignores %s (%s)" % (
                        name.split(".")[-1], a, sorted(lost), txt),
                    "%s: %s of %s does not depend on %s"
                    % (txt, a, name, ", ".join(sorted(lost))))
    # every parameter reaches the result
    for name, kind, cls in d.entries:
        ctor = kind == "class" and name in CLASSES
        meth = kind == "method" and cls.name in ("EmbeddingCircuit",) \
            or kind == "method" and cls.name.startswith("RespFn")
        if not (name in FUNCS or ctor or meth):
            continue
        m = name.rpartition(".")[2]
        if m.startswith(("__", "plot", "print", "save")) \
                or m == "check_hb_error":
            continue
        rk = resp_kw(d, name)
        k = {"extra_kw": rk, "opts": False} if rk is not None else {}
        r = d.run(name, kind, cls, **k)
        if r.dead:
            raise AnalysisBroken("%s never returns" % name)
        got = set(map(str, it.deps(r.st, r.value)))
        for oid, o in r.st.heap.items():
            if o.kind == "inst" and str(o.origin) == "input:self":
                for v in o.attrs.values():
                    got |= set(map(str, it.deps(r.st, v)))
        roots = {root(g) for g in got}
        for p in params_of(d, name)[0]:
            if p in NO_RESULT or m == "set_name" and p == "f":
                continue
            rep.count("parameter_obligations")
            if p not in roots:
                rep.finding("%s ignores %s" % (name, p),
                            "the result of %s does not depend on its "
                            "parameter '%s'" % (name, p))
        for lab in SIM_MUST.get(name, ()):
            rep.count("must_obligations")
            if lab not in got:
                rep.finding("%s ignores %s" % (name, lab),
                            "the result of %s does not depend on '%s'"
                            % (name, lab))
        if rk is not None:
            for lab in RESP_MUST:
                rep.count("must_obligations")
                if "kw." + lab not in got:
                    rep.finding("%s ignores %s" % (name, lab),
                                "%s does not depend on option '%s'"
                                % (name, lab))
    if rep.counts.get("parameter_obligations", 0) < 80:
        raise AnalysisBroken("too few parameters checked")


# ---------------------------------------------------------------- C08
FRESH = object()
CCT = "qmix.circuit.EmbeddingCircuit"
POWER = ["W", "mW", "uW", "nW", "pW", "fW", "dBm", "dBW"]
FREQ = ["Hz", "MHz", "GHz", "THz", "V", "mV", "norm"]


def anycase(xs):
    out = []
    for x in xs:
        for y in (x, x.lower(), x.upper()):
            if y not in out:
                out.append(y)
    return out


def names_table():
    """(entry, parameter, is option, fixed options, accepted, rejected)"""
    E = X + "exp_data."
    out = []
    for f in (X + "iv_data.dciv_curve", X + "iv_data.iv_curve", E + "DCData",
              E + "PumpedData"):
        out.append((f, "v_fmt", True, {}, ["uV", "mV", "V"],
                    [FRESH, "MV", "mA"]))
        out.append((f, "i_fmt", True, {}, ["uA", "mA", "A"],
                    [FRESH, "MA", "mV"]))
    for f in (X + "if_data.dcif_data", X + "if_data.if_data"):
        out.append((f, "v_fmt", True, {}, ["uV", "mV", "V"],
                    [FRESH, "MV", "mA"]))
    out.append((X + "if_data.if_data", "best_pt", True, {"vbest": NONE},
                anycase(["Max Gain", "Min Tn"]), [FRESH]))
    out.append(("qmix.mathfn.ivcurve_models.exponential", "model", False, {},
                ["fixed", "original"], [FRESH]))
    out.append(("qmix.harmonic_balance.harmonic_balance", "mode", False, {},
                ["o", "x", "m"], [FRESH]))
    for m in ("available_power", "set_available_power"):
        out.append((CCT + "." + m, "units", False, {}, anycase(POWER),
                    [FRESH]))
    out.append((CCT + ".set_freq", "units", False, {}, anycase(FREQ),
                [FRESH, "kHz"]))
    return out


@check("C08")
def names_recognised(rep, thorough):
    """unknown units, models and modes are rejected, known ones accepted"""
    rep.rule = (
        "every unit, model, mode and criterion parameter is analysed with "
        "each documented name and with a string that equals no literal of "
        "the program: documented names must have a path to a normal "
        "return, the unknown string must have none, and the rejected call "
        "must not have written the circuit")
    d = Drive(terms=False)

    def job(x):
        name, par_, opt, fixed, val = x
        st = d.w.state()
        v = d.w.make(st, "freshstr", par_) if val is None else const(val)
        kw = {}
        ex = dict(fixed)
        if opt:
            ex[par_] = v
        else:
            kw["args"] = {par_: v}
        if opt:
            kw["extra_kw"] = ex
        r = d.run(*entry(d, name), st=st, **kw)
        wr = sorted({"%s" % d.it.p.where(e.node) for e in r.events
                     if e.kind == "mutate"
                     and str(e.data.get("origin")).startswith("input:")})
        return r.dead, wr

    jobs = []
    for name, p, opt, fixed, good, bad in names_table():
        n, k, c = entry(d, name)
        if not opt and p not in params_of_any(d, name, k, c):
            rep.undec("%s has no parameter %s" % (name, p))
            continue
        for v in good:
            jobs.append(((name, p, opt, fixed, v), False))
        for v in bad:
            jobs.append(((name, p, opt, fixed,
                          None if v is FRESH else v), True))
    for ((name, p, opt, fixed, v), want), (dead, wr) in zip(
            jobs, par(job, [j[0] for j in jobs])):
        rep.count("scenarios")
        s = "an unrecognised string" if v is None else "%r" % v
        if want and not dead:
            rep.finding("%s accepts %s for %s" % (name, s, p),
                        "%s returns normally with %s for '%s'"
                        % (name, s, p))
        elif want and wr:
            rep.finding("%s writes before rejecting %s" % (name, p),
                        "%s writes at %s before it rejects %s for '%s'"
                        % (name, wr[0], s, p))
        elif not want and dead:
            rep.finding("%s rejects %s for %s" % (name, s, p),
                        "%s never returns with documented value %s for '%s'"
                        % (name, s, p))
    if rep.counts.get("scenarios", 0) < 80:
        raise AnalysisBroken("too few scenarios")


def params_of_any(d, name, kind, cls):
    if kind == "method":
        m = name.rpartition(".")[2]
        from ..interp import Closure
        for f in cls.lookup(m)[1].f:
            if isinstance(f, Closure):
                a = f.func.node.args
                return [p.arg for p in a.posonlyargs + a.args
                        + a.kwonlyargs]
    return params_of(d, name)[0]


# ---------------------------------------------------------------- C09
def arr(d, st, label, shape, fill=None):
    """an input array of the given shape (None: any length)"""
    v = d.w.array(st, label, len(shape))
    o = next(iter(v.r))
    ob = st.heap[o]
    rid = next(iter(ob.bases))
    sh = tuple(tm.lift(s) if s is not None else
               tm.atom("n%d(%s)" % (k, label), True, True, True)
               for k, s in enumerate(shape))
    c = st.heap[rid].content
    if fill is not None:
        c = lambda i, x=tm.lift(fill): x
    st.heap[rid] = st.heap[rid].rep(shape=sh, content=c)
    st.heap[o] = ob.rep(shape=sh)
    return v


def A(*shape, **kw):
    return lambda d, st, p: arr(d, st, p, shape, kw.get("fill"))


def K(x):
    return lambda d, st, p: const(x)


def S(spec):
    return lambda d, st, p: d.w.make(st, spec, p)


def circuit(**kw):
    """a circuit with some attributes fixed"""
    def mk(d, st, p):
        v = d.w.make(st, "circuit", p)
        o = next(iter(v.r))
        at = dict(st.heap[o].attrs)
        for k, x in kw.items():
            if k not in at:
                raise AnalysisBroken("circuit attribute %s is gone" % k)
            at[k] = x(d, st, p + "." + k)
        st.heap[o] = st.heap[o].rep(attrs=at)
        return v
    return mk


def inttuple(n):
    def mk(d, st, p):
        o = O("tuple", items=tuple(unk("int", frozenset([p]))
                                   for _ in range(n)), origin="input:" + p)
        st.heap[("in", p, "tup")] = o
        return V(r=frozenset([("in", p, "tup")]), d=frozenset([p]))
    return mk


def invalid_table():
    """(entry, parameters, receiver, text, terms mode, rejected?)"""
    E, C, M = X + "exp_data.", X + "clean_data.", "qmix.mathfn."
    out = []

    def bad(name, args, text, self_=None, terms=False):
        out.append((name, args, self_, text, terms, True))

    def good(name, args, text, self_=None, terms=False):
        out.append((name, args, self_, text, terms, False))

    for n in (0, 5, -1):
        bad(CCT, {"num_f": K(n)}, "num_f=%d" % n)
    for n in (1, 2, 3, 4):
        good(CCT, {"num_f": K(n)}, "num_f=%d" % n)
    for n in (0, -2, 2.5):
        bad(CCT, {"num_p": K(n)}, "num_p=%s" % n)
    good(CCT, {"num_p": K(1)}, "num_p=1")
    for n in (0, -3, 10.5):
        bad(CCT, {"vb_npts": K(n)}, "vb_npts=%s" % n)
    good(CCT, {"vb_npts": K(1)}, "vb_npts=1")
    bad(CCT, {"vb_min": K(1.0), "vb_max": K(0.5)}, "vb_max < vb_min")
    good(CCT, {"vb_min": K(0.5), "vb_max": K(1.0)}, "vb_max > vb_min")
    good(CCT, {"vb_min": K(1.0), "vb_max": K(1.0)}, "vb_max = vb_min")
    for n in (2, 4, 10):
        bad(M + "misc.slope_span_n", {"n": K(n)}, "even window %d" % n)
    good(M + "misc.slope_span_n", {"n": K(5)}, "odd window")
    bad(C + "clean_xy", {"x": A(5), "y": A(4)}, "x and y of unequal length")
    good(C + "clean_xy", {"x": A(5), "y": A(5)}, "x and y of equal length")
    for n in (1, 3):
        bad(C + "clean_matrix", {"matrix": A(5, n)}, "%d columns" % n)
    good(C + "clean_matrix", {"matrix": A(5, 2)}, "2 columns")
    for f, p in ((X + "iv_data.dciv_curve", "ivdata"),
                 (X + "iv_data.iv_curve", "ivdata"),
                 (X + "if_data.dcif_data", "ifdata"),
                 (X + "if_data.if_data", "if_hot"),
                 (X + "if_data.if_data", "if_cold"),
                 (E + "DCData", "dciv"), (E + "DCData", "dcif"),
                 (E + "PumpedData", "ivdata"),
                 (E + "PumpedData", "if_hot"),
                 (E + "PumpedData", "if_cold")):
        ex = {}
        if f.endswith("PumpedData") and p != "ivdata":
            ex = {"if_hot": S("arr2"), "if_cold": S("arr2"),
                  "*analyze_if": K(True)}
        for sh in ((50,), (50, 1), (50, 3), (50, 2, 2)):
            bad(f, dict(ex, **{p: A(*sh)}), "%s of shape %s" % (p, sh))
        good(f, dict(ex, **{p: A(50, 2)}), "%s of shape (50, 2)" % p)
        bad(f, dict(ex, **{p: S("list")}), p + " is a list")
        bad(f, dict(ex, **{p: K(3.0)}), p + " is a number")
        if f.endswith("PumpedData") and p == "ivdata" or p == "dciv":
            bad(f, dict(ex, **{p: S("str")}), p + " is a string")
    f = X + "if_response.if_response"
    for sh in ((50,), (50, 2), (2, 50), (50, 4), (50, 3, 2)):
        bad(f, {"if_data": A(*sh)}, "if_data of shape %s" % (sh,))
    good(f, {"if_data": A(50, 3)}, "if_data of shape (50, 3)")
    good(f, {"if_data": A(3, 50)}, "if_data of shape (3, 50)")
    for q in ("list", "str"):
        bad(f, {"if_data": S(q)}, "if_data is a " + q)
    # circuits that are not ready
    none = K(None)
    for m in ("available_power", "set_available_power"):
        bad(CCT + "." + m, {}, "gap voltage not set",
            circuit(vgap=none))
        bad(CCT + "." + m, {}, "normal resistance not set",
            circuit(rn=none))
        good(CCT + "." + m, {}, "complete circuit",
             circuit(vgap=S("num"), rn=S("num")))
    for u in ("Hz", "MHz", "GHz", "THz"):
        bad(CCT + ".set_freq", {"units": K(u)}, "%s without gap" % u,
            circuit(fgap=none, vgap=none))
        good(CCT + ".set_freq", {"units": K(u)}, "%s with gap" % u,
             circuit(fgap=S("num"), vgap=S("num")))
    for u in ("V", "mV"):
        bad(CCT + ".set_freq", {"units": K(u)}, "%s without gap" % u,
            circuit(vgap=none, fgap=none))
    zt0 = lambda d, st, p: arr(d, st, p, (None, None), 0.0)
    fr0 = lambda d, st, p: arr(d, st, p, (None,), 0.0)
    bad(CCT + ".set_alpha", {}, "impedance not set", circuit(zt=zt0),
        terms=True)
    bad(CCT + ".set_alpha", {}, "frequency not set", circuit(freq=fr0),
        terms=True)
    bad(CCT + ".set_available_power", {}, "impedance not set",
        circuit(zt=zt0, vgap=S("num"), rn=S("num")), terms=True)
    good(CCT + ".set_alpha", {}, "complete circuit", None, terms=True)
    # response functions
    R = "qmix.respfn.RespFn"
    bad(R, {"voltage": A(None, fill=6.0)}, "voltage does not start at zero",
        terms=True)
    bad(R, {"voltage": A(None, fill=0.0)}, "voltage ends below 5",
        terms=True)
    good(R, {}, "any voltage", terms=True)
    # tunneling current
    Q = "qmix.qtcurrent."
    cct2 = {"cct": circuit(num_f=K(2))}
    bad(Q + "qtcurrent", dict(cct2, num_b=inttuple(1)),
        "one Bessel limit for two tones")
    good(Q + "qtcurrent", dict(cct2, num_b=inttuple(2)),
         "two Bessel limits for two tones")
    bad(Q + "interpolate_respfn", dict(cct2, num_b=inttuple(1)),
        "one Bessel limit for two tones")
    bad(Q + "qtcurrent", dict(cct2, resp_matrix=A(5, 5)),
        "response matrix of wrong rank")
    # pumped data needs a frequency
    bad(E + "PumpedData", {"*freq": K(None)}, "no LO frequency")
    good(E + "PumpedData", {"*freq": S("num")}, "LO frequency")
    return out


#: conditions on the values of data that a check must test before it
#: returns: (entry, options, sources that one guard must combine)
GUARDS = [
    ("qmix.mathfn.kktrans.kk_trans", {}, ["v"], "uneven voltage"),
    ("qmix.mathfn.kktrans.kk_trans_trapz", {}, ["v"], "uneven voltage"),
    ("qmix.mathfn.filters.gauss_conv", {}, ["x", "sigma", "ext_x"],
     "window longer than the data"),
    ("qmix.mathfn.filters.gauss_conv", {}, ["sigma", "ext_x"],
     "window shorter than one sample"),
    (X + "clean_data.remove_doubles_xy", {"check": True}, ["x"],
     "unsorted data"),
    (X + "clean_data.remove_doubles_matrix", {"check": True},
     ["matrix", "col"], "unsorted data"),
    ("qmix.harmonic_balance.check_hb_error", {},
     ["vj_check", "stop_rerror", "resp", "cct.vt", "cct.zt", "num_b"],
     "harmonic balance error above the target"),
    ("qmix.respfn.RespFn", {"*check_error": True},
     ["voltage", "current", "kw.max_interp_error", "kw.max_npts_dc"],
     "DC interpolation error above the limit"),
    ("qmix.respfn.RespFn", {"*check_error": True},
     ["voltage", "current", "kw.max_interp_error", "kw.max_npts_kk"],
     "KK interpolation error above the limit"),
    ("qmix.qtcurrent.qtcurrent", {}, ["cct.freq"], "zero frequency"),
    ("qmix.qtcurrent.qtcurrent", {}, ["resp_matrix"],
     "response matrix of wrong size"),
]


@check("C09")
def invalid_rejected(rep, thorough):
    """invalid input is rejected before anything is changed"""
    rep.rule = (
        "each invalid input is described abstractly (fixed counts, shapes, "
        "types, missing circuit values); the entry analysed on it must "
        "have no path to a normal return and must not write the caller's "
        "objects, while the matching valid input must have one; value "
        "dependent conditions must be tested by an assertion or raise "
        "that depends on all the named inputs")
    ds = {False: Drive(terms=False), True: Drive(terms=True)}

    def job(x):
        name, args, self_, text, terms, want = x
        d = ds[terms]
        st = d.w.state()
        kw = {"args": {}, "extra_kw": {}}
        for p, f in args.items():
            if p.startswith("*"):
                kw["extra_kw"][p[1:]] = f(d, st, "kw." + p[1:])
            else:
                kw["args"][p] = f(d, st, p)
        if self_ is not None:
            kw["selfspec"] = self_(d, st, "self")
        r = d.run(*entry(d, name), st=st, **kw)
        wr = sorted({"%s (%s)" % (d.it.p.where(e.node),
                                  e.data.get("origin")) for e in r.events
                     if e.kind == "mutate"
                     and str(e.data.get("origin")).startswith("input:")})
        return r.dead, wr

    table = invalid_table()
    for x, (dead, wr) in zip(table, par(job, table)):
        name, args, self_, text, terms, want = x
        rep.count("scenarios")
        if want and not dead:
            rep.finding("%s accepts: %s" % (name, text),
                        "%s has a path to a normal return with %s"
                        % (name, text))
        elif want and wr:
            rep.finding("%s writes before rejecting: %s" % (name, text),
                        "%s: %s writes before it rejects %s"
                        % (wr[0], name, text))
        elif not want and dead:
            rep.finding("%s rejects: %s" % (name, text),
                        "%s never returns with %s" % (name, text))

    d = ds[False]

    def gjob(x):
        name, args, labs, text = x
        st = d.w.state()
        kw = {"args": {}, "extra_kw": {}}
        rk = resp_kw(d, name)
        if rk is not None:
            kw["extra_kw"].update(rk)
            kw["opts"] = False
        for p, v in args.items():
            if p.startswith("*"):
                kw["extra_kw"][p[1:]] = const(v)
            else:
                kw["args"][p] = const(v)
        r = d.run(*entry(d, name), st=st, **kw)
        got = [set(e.data["d"]) for e in r.events
               if e.kind in ("assert", "raise")
               and e.data.get("truth") != "True"]
        return any(set(labs) <= g for g in got), len(got)

    for x, (ok, n) in zip(GUARDS, par(gjob, GUARDS)):
        name, args, labs, text = x
        rep.count("guard_obligations")
        rep.count("assertions_seen", n)
        if not ok:
            rep.finding("%s does not test: %s" % (name, text),
                        "no assertion or raise of %s depends on %s (%s)"
                        % (name, ", ".join(labs), text))


# ---------------------------------------------------------------- C10
def form(st, v, depth=0):
    """forms of a value: number, array<rank>, tuple<n>(...), object, None"""
    out = set()
    for c in v.c:
        out.add({"NoneType": "None", "str": "str", "bool": "number",
                 "int": "number", "float": "number",
                 "complex": "number"}.get(c[0], str(c[0])))
    for t in v.t:
        out.add("number" if t in ("int", "float", "num", "complex", "bool")
                else "str" if t == "str" else "?")
    for r in v.r:
        o = st.heap[r]
        if o.kind in ("tuple", "list"):
            if o.items is None:
                out.add("tuple?")
            else:
                out.add("tuple(%s)" % "; ".join(
                    "|".join(sorted(form(st, x, depth + 1)))
                    for x in o.items))
        elif o.kind == "array":
            out.add("array%s" % (o.rank if o.rank is not None else "?"))
        elif o.kind in ("inst", "axes"):
            out.add("object")
        else:
            out.add("?")
    if v.f:
        out.add("function")
    return out


def fits(st, v, want):
    """None if v has the wanted form on all paths, else what is wrong"""
    got = set()
    if want == "number":
        got = {x for x in form(st, v) if x not in ("number", "?", "array0",
                                                  "array?")}
    elif want.startswith("array"):
        rk = want[5:]
        got = {x for x in form(st, v)
               if x != "?" and not (x.startswith("array") and
                                    (rk == "" or x[5:] in (rk, "?")))}
    elif want == "object":
        got = {x for x in form(st, v) if x not in ("object", "?")}
    elif want.startswith("("):
        parts = want[1:-1].split(",")
        for x in form(st, v):
            if not x.startswith("tuple"):
                if x != "?":
                    got.add(x)
        for r in v.r:
            o = st.heap[r]
            if o.kind in ("tuple", "list") and o.items is not None:
                if len(o.items) != len(parts):
                    got.add("%d values" % len(o.items))
                    continue
                for k, (y, w) in enumerate(zip(o.items, parts)):
                    g = fits(st, y, w)
                    if g:
                        got.add("value %d: %s" % (k, ", ".join(g)))
    return sorted(got) or None


def form_table():
    C, M, Q = X + "clean_data.", "qmix.mathfn.", "qmix.qtcurrent."
    xy, mat = "(array1,array1)", "array2"
    T = [(C + "remove_nans_xy", {}, xy), (C + "sort_xy", {}, xy),
         (C + "remove_doubles_xy", {}, xy), (C + "clean_xy", {}, xy),
         (C + "matrix_to_xy", {}, xy), (C + "xy_to_matrix", {}, mat),
         (C + "remove_nans_matrix", {}, mat), (C + "sort_matrix", {}, mat),
         (C + "remove_doubles_matrix", {}, mat),
         (C + "clean_matrix", {}, mat),
         (X + "iv_data.dciv_curve", {}, "(array1,array1,object)"),
         (X + "iv_data.iv_curve", {}, "(array1,array1)"),
         (X + "if_data.dcif_data", {}, "(array2,object)"),
         (X + "if_data.if_data", {}, "(array2,number,object)"),
         (X + "if_response.if_response", {}, "array2"),
         ("qmix.circuit.read_circuit", {}, "object"),
         (CCT + ".initialize_vj", {}, "array3"),
         (CCT + ".available_power", {}, "number"),
         (CCT + ".vph", {}, "array1"),
         (Q + "qtcurrent", {"freq_list": K(0.3)}, "array1"),
         (Q + "qtcurrent", {"freq_list": K(0)}, "array1"),
         (Q + "qtcurrent", {"freq_list": S("list")}, "array2"),
         (Q + "qtcurrent", {"freq_list": S("arr1")}, "array2"),
         (M + "kktrans.kk_trans", {}, "array"),
         (M + "kktrans.kk_trans_trapz", {}, "array"),
         (M + "misc.slope", {}, "array1"),
         (M + "misc.slope_span_n", {}, "array1"),
         (M + "filters.gauss_conv", {}, "array1")]
    H = "qmix.harmonic_balance.harmonic_balance"
    for nm, f in (("", None), (" (no impedance)", 0.0)):
        a = {"cct": circuit(zt=A(3, 2, fill=f))} if f is not None else {}
        T.append((H, dict(a, mode=K("o")), "array3"))
        T.append((H, dict(a, mode=K("x")), "(array3,number,number)"))
        T.append((H, dict(a, mode=K("m")), "(array3,array1)"))
    for f in ("perfect", "perfect_kk", "polynomial", "exponential",
              "expanded"):
        n = M + "ivcurve_models." + f
        T.append((n, {"voltage": S("arr1")}, "array"))
    for f in ("perfect", "perfect_kk"):
        T.append((M + "ivcurve_models." + f, {"voltage": S("num")},
                  "number"))
    for m in ("idc", "ikk", "resp", "resp_conj", "resp_swap"):
        for c in ("RespFn", "RespFnFromIVData", "RespFnPolynomial",
                  "RespFnExponential", "RespFnPerfect"):
            T.append(("qmix.respfn.%s.%s" % (c, m),
                      {"vbias": S("arr1")}, "array"))
    return T


@check("C10")
def result_forms(rep, thorough):
    """results have their documented form on every path"""
    rep.rule = (
        "for every computation the abstract value joined over all its "
        "return paths is compared with the documented form (number, array "
        "of that rank, tuple of that length and those members); a path "
        "that falls off the end or returns None, another tuple length or "
        "another rank is reported; forms the analysis cannot see are not")
    d = Drive(terms=False)
    dt = Drive(terms=True)
    table = form_table()

    def job(x):
        name, args, want = x
        d_ = dt if name.endswith("harmonic_balance") else d
        st = d_.w.state()
        kw = {"args": {p: f(d_, st, p) for p, f in args.items()}}
        rk = resp_kw(d_, name)
        n, k, c = entry(d_, name)
        if k == "property":
            kw = {}
        r = d_.run(n, k, c, st=st, **kw)
        if r.dead:
            return "dead", None
        return fits(r.st, r.value, want), sorted(form(r.st, r.value))

    for (name, args, want), (bad, got) in zip(table, par(job, table)):
        rep.count("computations")
        if bad == "dead":
            rep.finding("%s never returns" % name,
                        "%s has no path to a normal return" % name)
        elif bad:
            rep.finding("%s returns %s" % (name, ", ".join(bad)),
                        "%s should return %s but a path returns %s"
                        % (name, want, ", ".join(bad)))
        else:
            rep.sample("%s: %s" % (name.split(".")[-1], got))
            if got and all(g == "?" for g in got):
                rep.undec("form of the result of %s" % name)
