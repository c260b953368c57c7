"""Effect, alias and dependency properties of every public entry point."""
import ast
import re

from ..drive import Drive
from ..entries import TYPES
from ..interp import ClassInfo, Closure
from ..project import AnalysisBroken, Project
from ..values import V, UNBOUND, FALSEV, EMPTY

CHECKS = {}


def check(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn
    return deco


def where(it, e):
    return "%s in %s" % (it.p.where(e.node), e.func)


def params_of(d, name):
    """parameter names of an entry and whether it takes **options"""
    cv = d.it.lookup_public(name)
    for f in cv.f:
        fn = None
        if isinstance(f, ClassInfo):
            c, i = f.lookup("__init__")
            if i is not None:
                fn = next(iter(i.f)).func.node
        elif isinstance(f, Closure):
            fn = f.func.node
        if fn is not None:
            return ([p.arg for p in fn.args.posonlyargs + fn.args.args
                     + fn.args.kwonlyargs], fn.args.kwarg is not None)
    return [], False


RESP_OPTS = {"max_npts_dc": "int", "max_npts_kk": "int",
             "max_interp_error": "num", "check_error": "bool",
             "verbose": "bool", "v_smear": "none|num"}


def resp_kw(d, name):
    """the options of the response functions"""
    if not name.startswith("qmix.respfn.RespFn") or name.count(".") != 2:
        return None
    from ..values import join
    out = {}
    st = d.w.state()
    for k, s in RESP_OPTS.items():
        out[k] = join(UNBOUND, d.w.make(st, s, "kw." + k))
    return out


def runs(d, rep, **kw):
    n = 0
    for name, kind, cls in d.entries:
        k = dict(kw)
        rk = resp_kw(d, name)
        if rk is not None:
            k["extra_kw"] = dict(rk, **k.get("extra_kw", {}))
            k["opts"] = False
        if name == "qmix.exp.exp_data.PumpedData.plot_all":
            k["opts"] = False
        n += 1
        yield d.run(name, kind, cls, **k)
    rep.count("entry_points", n)
    rep.count("functions_analysed", len(d.it.funcs_seen))
    rep.count("abstract_statements", d.it.n_stmts)
    if len(d.it.funcs_seen) < 90:
        raise AnalysisBroken("only %d functions reached"
                             % len(d.it.funcs_seen))


def self_check(rep, src, kinds):
    """positive example: the analysis must still see these effects"""
    from .. import selftest
    seen = selftest.kinds(src)
    for k in kinds:
        if k not in seen:
            raise AnalysisBroken("positive example: %s not reported" % k)
    rep.count("positive_examples", len(kinds))


# ---------------------------------------------------------------- C01
SETTERS = re.compile(r"^(set_|lock$|unlock$|__init__$|__set)")


def is_setter(name):
    cls, _, m = name.rpartition(".")
    return cls.endswith("EmbeddingCircuit") and bool(SETTERS.match(m))


@check("C01")
def inputs_unmodified(rep, thorough):
    """no call modifies what the caller handed in"""
    self_check(rep, """
def f(a, b, c):
    a *= 2
    v = b[1:]
    v[0] = 1.0
    w = b.T
    w.sort()
    c.vb = 1
""", ["mutate:input:a", "mutate:input:b", "mutate:input:c"])
    rep.rule = ("from every public function, class and method, run on "
                "arbitrary inputs: no store, in-place operation or mutating "
                "method call may reach an object or array buffer owned by "
                "the caller (points-to of the written object includes an "
                "input); circuit setters may write their own circuit")
    d = Drive(terms=False)
    it = d.it
    writes = 0
    for r in runs(d, rep):
        for e in r.events:
            if e.kind not in ("mutate", "rowrite"):
                continue
            o = str(e.data.get("origin"))
            writes += 1
            if not o.startswith("input:"):
                continue
            lab = o[6:]
            root = lab.split(".")[0].split("[")[0]
            if root == "ax" and e.data.get("what") == "close":
                continue
            if root == "self" and is_setter(r.name):
                rep.count("own_circuit_writes")
                continue
            if root == "self" and r.kind != "class" \
                    and str(e.data.get("what")).startswith("_") \
                    and "array" not in str(e.data.get("what")):
                continue
            rep.finding(
                "modifies %s via %s in %s" % (lab, r.name, e.func),
                "%s: %s may modify caller-owned %s (%s)"
                % (where(it, e), r.name, lab, e.data.get("what")))
    rep.count("writes_to_foreign_objects", writes)
    if rep.counts.get("own_circuit_writes", 0) < 8:
        raise AnalysisBroken("circuit setters no longer seen writing")
    rep.assumptions.append(
        "plotting may draw on and close the figure of the axes it is given")


# ---------------------------------------------------------------- C02
#: (entry, region of the input that the result is documented to expose)
SHARING = {
    ("qmix.circuit.EmbeddingCircuit.vph", "self.freq"):
        "vph is the circuit's own normalized frequency array",
    ("qmix.exp.clean_data.matrix_to_xy", "matrix"):
        "matrix_to_xy splits a matrix into its two columns",
}
RESULTS = ("qmix.exp.iv_data.", "qmix.exp.if_data.", "qmix.exp.if_response.",
           "qmix.exp.clean_data.", "qmix.qtcurrent.", "qmix.circuit.",
           "qmix.harmonic_balance.", "qmix.mathfn.", "qmix.respfn.",
           "qmix.exp.exp_data.")


@check("C02")
def results_own_data(rep, thorough):
    """results share no array memory with inputs or module state"""
    self_check(rep, """
import numpy as np
TAB = np.zeros(4)
def f(a, b):
    v = np.asarray(a)
    return v[1:], TAB, b
""", ["alias:input:a", "alias:module:m.TAB", "alias:input:b"])
    rep.rule = ("escape/alias analysis: no array buffer reachable from a "
                "result or a constructed object is a buffer of an argument, "
                "of module state or of a class attribute")
    d = Drive(terms=False)
    it = d.it
    for r in runs(d, rep):
        if r.dead:
            continue
        st = r.st
        seen = set()
        roots = [("result", r.value)]
        if r.kind == "method" and is_setter(r.name):
            roots.append(("circuit", V(r=frozenset(
                [k for k, o in st.heap.items() if o.kind == "inst"
                 and o.origin == "input:self"]))))
        for what, v in roots:
            for oid in it.reach(st, v):
                ob = st.heap.get(oid)
                if ob is None:
                    continue
                rep.count("objects_reached")
                if ob.kind == "region":
                    pass
                elif ob.kind in ("list", "dict") and str(
                        ob.origin).startswith(("module:", "class:")):
                    pass
                elif ob.kind == "dict":
                    pass
                else:
                    continue
                if ob.kind == "region":
                    rep.count("array_buffers")
                o = str(ob.origin)
                if o == "fresh" or o in seen:
                    continue
                seen.add(o)
                if o.startswith("input:"):
                    lab = o[6:]
                    if (r.name, lab) in SHARING:
                        rep.count("documented_sharing")
                        continue
                    root = lab.split(".")[0].split("[")[0]
                    if root == "self" and (what == "circuit"
                                           or ob.kind != "region"):
                        continue
                    if TYPES.get(root) in ("dciv", "circuit", "resp",
                                           "pumpedlist", "axes") \
                            or "." in lab and r.name.endswith("PumpedData"):
                        # the DC object itself is kept by reference
                        if r.name.endswith("PumpedData") \
                                and root == "dciv":
                            rep.count("documented_sharing")
                            continue
                    if root == "kw":
                        continue
                rep.finding(
                    "%s of %s shares %s" % (what, r.name, o),
                    "the %s of %s shares memory with %s"
                    % (what, r.name, o))
    if rep.counts.get("array_buffers", 0) < 60:
        raise AnalysisBroken("too few result arrays seen")


# ---------------------------------------------------------------- C03
HIDDEN = {"clock", "random", "env"}


@check("C03")
def no_hidden_state(rep, thorough):
    """calls keep no hidden or process-wide state"""
    self_check(rep, """
import numpy as np
import time
LIST = []
COUNT = 0
def f(a, acc=[]):
    global COUNT
    COUNT = COUNT + 1
    LIST.append(a)
    acc.append(a)
    np.seterr(all='ignore')
    np.random.seed(0)
    return time.time()
""", ["procstate", "globalwrite", "mutate:module:m.LIST", "dep:clock"])
    rep.rule = ("from every public entry point: no write to module globals, "
                "class attributes, default arguments or caches, no call "
                "that changes process-wide settings, no random or seeded "
                "generator; no result depends on clock, random or "
                "environment (data and control dependence)")
    d = Drive(terms=False)
    it = d.it
    for r in runs(d, rep):
        for e in r.events:
            if e.kind in ("procstate", "random", "globalwrite", "cache"):
                rep.finding("%s %s in %s" % (e.kind, e.data.get("name"),
                                             e.func),
                            "%s: %s %s (from %s)" % (
                                where(it, e), e.kind, e.data.get("name"),
                                r.name))
            elif e.kind == "mutate":
                o = str(e.data.get("origin"))
                if o.startswith(("module:", "class:", "ext:", "mod:",
                                 "default")):
                    rep.finding("writes %s in %s" % (o, e.func),
                                "%s: %s writes shared %s (from %s)" % (
                                    where(it, e), e.func, o, r.name))
        if not r.dead:
            bad = HIDDEN & it.deps(r.st, r.value)
            rep.count("results_checked")
            if bad:
                rep.finding("result of %s depends on %s" % (
                    r.name, sorted(bad)), "the result of %s depends on %s"
                    % (r.name, sorted(bad)))
    # shared module state must not be written through results either (C02)
    rep.count("module_statements_checked",
              sum(len(m.tree.body) for m in it.p.modules.values()))


# ---------------------------------------------------------------- C04
WARNING = re.compile(
    r"warn|did not|must|fail|not been|no dc if|are you sure|"
    r"unable|could not|selecting|invalid", re.I)
INFO = ("qmix.misc.",)


def message_owner(it, e):
    return e.func


@check("C04")
def quiet_mode(rep, thorough):
    """with verbose=False nothing but warnings is printed"""
    rep.rule = ("every public function that takes a verbose switch is "
                "analysed with verbose=False (the switch is propagated "
                "through all calls): a print that is still reachable must "
                "be a warning that depends on a test of the data; with "
                "debug=False no figure window is shown")
    d = Drive(terms=False)
    it = d.it
    loud = 0
    for name, kind, cls in d.entries:
        if kind == "property":
            continue
        pars, kwarg = params_of(d, name)
        if "verbose" in pars:
            mk = lambda v: {"args": {"verbose": v}}
        elif kwarg and kind in ("function", "class"):
            mk = lambda v: {"extra_kw": {"verbose": v}}
        else:
            continue
        from ..values import TRUEV
        base = {}
        rk = resp_kw(d, name)
        if rk is not None:
            base = {"extra_kw": rk, "opts": False}
        elif kwarg:
            base = {"extra_kw": {"debug": FALSEV}}
        for val in (TRUEV, FALSEV):
            k = mk(val)
            if "extra_kw" in base:
                k["extra_kw"] = dict(base["extra_kw"],
                                     **k.get("extra_kw", {}))
            if "opts" in base:
                k["opts"] = base["opts"]
            r = d.run(name, kind, cls, **k)
            prints = [e for e in r.events if e.kind in ("print", "log",
                                                        "pltcall", "show")]
            if val is TRUEV:
                loud += len([e for e in prints if e.kind == "print"])
                continue
            rep.count("quiet_entry_points")
            for e in prints:
                if e.kind == "show":
                    rep.finding("%s shows a window in %s" % (name, e.func),
                                "%s: window shown with debug=False"
                                % where(it, e))
                    continue
                if e.kind == "pltcall":
                    continue
                rep.count("quiet_prints")
                text = re.sub("\033\\[\\d+m", "", e.data.get("text") or "")
                # is it conditional on the data, not only on options?
                cond = any(f[0] in ("if", "except") and not f[4] and any(
                    not str(x).startswith("kw.") or "." in str(x)[3:]
                    for x in f[1]) for f in e.pc)
                bare = re.sub(r"\{\}|\s|[^\w]", "", text)
                if cond and (WARNING.search(text) or not bare):
                    rep.count("warnings_allowed")
                    rep.sample("%s: warning %r" % (where(it, e),
                                                   text.strip()[:60]))
                    continue
                rep.finding(
                    "%s prints in %s: %s" % (name, e.func, text.strip()[:50]),
                    "%s: printed with verbose=False (from %s): %r"
                    % (where(it, e), name, text.strip()[:80]))
    rep.count("verbose_prints", loud)
    if rep.counts.get("quiet_entry_points", 0) < 10 or loud < 20:
        raise AnalysisBroken("quiet-mode entry points are gone")


# ---------------------------------------------------------------- C05
INERT_KW = ["verbose", "debug", "comment", "vmax_plot"]


@check("C05")
def display_inert(rep, thorough):
    """display options and labels do not reach numerical results"""
    rep.rule = ("dependence (data and control) of every returned or stored "
                "value on verbose/debug/comment/vmax_plot/figure names: "
                "none may depend on them, except the comment itself and the "
                "record of the options")
    d = Drive(terms=False)
    it = d.it
    inert = set("kw." + k for k in INERT_KW) | {"verbose", "prefix",
                                                "fig_name", "kw.fig_name"}
    for r in runs(d, rep):
        if r.dead or ".plot_" in r.name or r.name.startswith("qmix.misc.") \
                or "plot" in r.name.rpartition(".")[2] \
                or r.name.endswith(".show_current") \
                or r.name.endswith("initialize_dir"):
            continue
        if r.kind == "class":
            for oid in r.value.r:
                o = r.st.heap[oid]
                for a, v in (o.attrs or {}).items():
                    rep.count("attributes_checked")
                    if a in ("kwargs", "comment", "name"):
                        continue
                    bad = set(map(str, it.deps(r.st, v))) & inert
                    if bad:
                        rep.finding("%s.%s depends on %s" % (
                            r.name, a, sorted(bad)),
                            "attribute %s of %s depends on %s"
                            % (a, r.name, sorted(bad)))
        else:
            rep.count("results_checked")
            bad = set(map(str, it.deps(r.st, r.value))) & inert
            if bad:
                rep.finding("%s depends on %s" % (r.name, sorted(bad)),
                            "result of %s depends on %s"
                            % (r.name, sorted(bad)))
    if rep.counts.get("attributes_checked", 0) < 60:
        raise AnalysisBroken("too few attributes seen")
