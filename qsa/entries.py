"""Entry points of the package and the abstract inputs they are run on."""
import ast

from . import terms as tm
from . import interp as ip
from .interp import Interp, ClassInfo, Closure
from .project import AnalysisBroken
from .values import (V, O, State, BOT, NONE, UNB, UNBOUND, TRUEV, FALSEV,
                     EMPTY, const, ck, unk, scalar, join, joinall)
from .models import FRESHSTR

# what a parameter of that name is, everywhere in the package
TYPES = {
    "x": "arr1", "y": "arr1", "v": "arr1", "i": "arr1",
    "voltage": "num|arr1", "current": "arr1", "vbias": "num|arr1",
    "mat": "arr2", "matrix": "arr2", "volt_v": "arr1", "curr_a": "arr1",
    "vmeas": "arr1", "imeas": "arr1", "theta": "num",
    "ivdata": "str|arr2", "dciv": "str|arr2", "dcif": "none|str|arr2",
    "ifdata": "str|arr2", "if_hot": "str|arr2", "if_cold": "str|arr2",
    "if_data": "arr2", "if_data_hot": "arr2", "if_data_cold": "arr2",
    "dc": "dciv", "cct": "circuit", "resp": "resp",
    "vj": "vj", "vj_initial": "none|vj", "vj_check": "vj",
    "freq_list": "num|list|arr1", "num_b": "int|inttuple",
    "resp_matrix": "none|respm", "stop_rerror": "float",
    "damp_coeff": "float", "max_it": "int", "mode": "str",
    "verbose": "bool", "zj_guess": "num", "zj": "num", "fig_name": "none|str",
    "ax": "none|axes", "vmax_plot": "num", "fig_folder": "str",
    "sub_folder": "none|str", "file_struc": "none|dict",
    "data_folder": "str", "figsize": "none|tuple", "tn_max": "none|num",
    "f_range": "none|tuple", "data_list": "pumpedlist",
    "filename": "str", "name": "str", "f": "int", "p": "int",
    "units": "str", "power": "num", "alpha": "num", "value": "num",
    "num_f": "int", "num_p": "int", "vb_min": "num", "vb_max": "num",
    "vb_npts": "int", "fgap": "none|num", "vgap": "none|num",
    "rn": "none|num", "rsg": "num", "agap": "num", "a0": "num",
    "ileak": "num", "vnot": "num", "inot": "num", "anot": "num",
    "ioff": "num", "model": "str", "order": "int", "p_order": "int",
    "max_kk": "num", "n": "int", "nozeros": "bool", "col": "int",
    "check": "bool", "sigma": "num", "ext_x": "num", "n_sigma": "num",
    "db": "num", "freq": "num", "tphys": "num", "iteration": "int",
    "total": "int", "prefix": "str", "suffix": "str", "decimals": "int",
    "bar_length": "int", "text": "str", "color": "none|str",
    "title_string": "str", "header_string": "str", "total_len": "int",
    "val": "num", "comment": "str", "complex_number": "complex",
    "vwi": "arr1", "zwi": "arr1", "zs": "num|arr1", "vb": "num|arr1",
    "vph": "num", "vdc_exp": "arr1", "idc_exp": "arr1", "alpha_max": "num",
}

# option dictionaries (**kw) take the importer options
OPT_HINT = {
    "freq": "none|num", "rn": "none|num", "vgap": "none|num",
    "voffset": "none|num", "ioffset": "none|num", "vleak": "num",
    "filter_data": "bool",
}


def optval(w, st, key, dflt, label):
    """a user value for option ``key``"""
    if key in OPT_HINT:
        return w.make(st, OPT_HINT[key], label)
    kinds = set()
    for k in dflt.c:
        kinds.add({"NoneType": "none", "int": "num", "float": "num",
                   "bool": "bool", "str": "str"}.get(k[0], "any"))
    if dflt.t:
        kinds.add("num")
    if dflt.r:
        kinds.add("list")
    if kinds == {"none"}:
        kinds = {"none", "num"}
    return w.make(st, "|".join(sorted(kinds)), label)


class World(object):
    """An interpreter with the package loaded and inputs to feed it."""

    def __init__(self, terms=False, project=None, setup=None):
        self.it = Interp(project)
        self.it.terms = terms
        if setup:
            setup(self.it)
        self.it.load_all()
        self.load_events = list(self.it.events)
        self.m = self.it.models
        self.n = 0
        self.cache = {}
        self.nodes = {}

    def state(self):
        return self.it.base.copy()

    def node(self, tag):
        n = self.nodes.get(tag)
        if n is None:
            n = self.nodes[tag] = ast.Pass()
        return n

    # ------------------------------------------------------------- values
    def make(self, st, spec, label):
        parts = spec.split("|")
        vs = [self.make1(st, p, label) for p in parts]
        v = vs[0]
        for x in vs[1:]:
            v = join(v, x)
        return v.add(frozenset([label]))

    def sym(self, label, kind):
        real = kind not in ("complex", "num?")
        return tm.atom(label, real, kind == "int")

    def make1(self, st, kind, label):
        it = self.it
        d = frozenset([label])
        org = "input:" + label
        nd = self.node(label + ":" + kind)
        if kind == "none":
            return NONE.add(d)
        if kind in ("num", "float", "int", "complex"):
            return unk(kind, d, self.sym(label, kind))
        if kind == "bool":
            b = tm.lift(tm.mk("br", ("fn", "opt:" + label), True, True,
                              True))
            return unk("bool", d, b)
        if kind == "str":
            return V(t=frozenset(["str"]), d=d, x=(("H", "in:" + label,
                                                    ""),))
        if kind == "freshstr":
            return unk(FRESHSTR, d)
        if kind == "any":
            return unk("any", d)
        if kind.startswith("arr") or kind in ("vj", "respm", "cvec"):
            rank = {"arr1": 1, "arr2": 2, "arr3": 3, "vj": None,
                    "respm": None, "cvec": 1, "carr2": 2,
                    "carr3": 3}.get(kind)
            return self.array(st, label, rank, kind in ("vj", "respm",
                                                        "cvec"))
        if kind in ("list", "tuple"):
            o = O("list" if kind == "list" else "tuple", items=None,
                  rest=unk("num", d), deps=d, origin=org)
            st.heap[("in", label, kind)] = o
            return V(r=frozenset([("in", label, kind)]), d=d)
        if kind == "inttuple":
            o = O("tuple", items=None, rest=unk("int", d), deps=d,
                  origin=org)
            st.heap[("in", label, kind)] = o
            return V(r=frozenset([("in", label, kind)]), d=d)
        if kind == "dict":
            o = O("dict", items={}, rest=unk("str", d), deps=d, origin=org)
            st.heap[("in", label, kind)] = o
            return V(r=frozenset([("in", label, kind)]), d=d)
        if kind == "axes":
            st.heap[("in", label, "fig")] = O(
                "fig", origin=org, attrs={"closed": FALSEV, "saved": FALSEV})
            fig = V(r=frozenset([("in", label, "fig")]))
            st.heap[("in", label, "axes")] = O("axes", items=(fig,),
                                               origin=org)
            return V(r=frozenset([("in", label, "axes")]), d=d)
        if kind == "circuit":
            return self.built(st, "qmix.circuit.EmbeddingCircuit",
                              {"num_f": unk("int", d, self.sym(
                                  label + ".num_f", "int")),
                               "num_p": unk("int", d, self.sym(
                                   label + ".num_p", "int")),
                               "vb_npts": unk("int", d, self.sym(
                                   label + ".vb_npts", "int")),
                               "vgap": join(NONE, unk("num", d)),
                               "rn": join(NONE, unk("num", d))}, label)
        if kind == "resp":
            return self.built(st, "qmix.respfn.RespFn", {
                "voltage": self.array(st, label + ".voltage", 1),
                "current": self.array(st, label + ".current", 1),
                "verbose": FALSEV}, label)
        if kind == "dciv":
            return self.dciv(st, label)
        if kind == "dcdata":
            return self.built(st, "qmix.exp.exp_data.DCData", {
                "dciv": self.array(st, label + ".dciv", 2),
                "dcif": join(NONE, self.array(st, label + ".dcif", 2)),
                "verbose": FALSEV}, label)
        if kind == "pumped":
            return self.built(st, "qmix.exp.exp_data.PumpedData", {
                "ivdata": self.array(st, label + ".ivdata", 2),
                "dciv": self.make1(st, "dcdata", label + ".dc"),
                "if_hot": self.array(st, label + ".hot", 2),
                "if_cold": self.array(st, label + ".cold", 2),
                "freq": unk("num", d), "analyze_iv": TRUEV,
                "verbose": FALSEV}, label)
        if kind == "pumpedlist":
            p = self.make1(st, "pumped", label)
            st.heap[("in", label, "pl")] = O("list", items=None, rest=p,
                                             deps=d, origin=org)
            return V(r=frozenset([("in", label, "pl")]), d=d)
        raise AnalysisBroken("unknown input kind " + kind)

    def array(self, st, label, rank, cplx=False):
        d = frozenset([label])
        org = "input:" + label
        rid, oid = ("in", label, "R"), ("in", label, "A")
        a = tm.arr(label, not cplx)
        shape = None
        content = None
        if rank is not None:
            shape = tuple(tm.atom("n%d(%s)" % (k, label), True, True, True)
                          for k in range(rank))
            if self.it.terms:
                content = lambda i: tm.sel(a, i)
        st.heap[rid] = O("region", content=content, rank=rank, deps=d,
                         origin=org, dtype="complex" if cplx else "float",
                         shape=shape, wr=frozenset([True, False])
                         if False else frozenset([True]))
        st.heap[oid] = O("array", bases=frozenset([rid]), rank=rank,
                         view=ip._ident, shape=shape, origin=org)
        return V(r=frozenset([oid]), d=d)

    def built(self, st, cls, kw, label):
        """an object built by the package's own constructor, then treated
        as an arbitrary earlier object of that class"""
        it = self.it
        cv = it.lookup_public(cls)
        rec, it.record = it.record, False
        gh = it.guard_hits
        it.guard_hits = []
        v = it.call(cv, [], kw, st, self.node("ctor:" + label))
        it.record = rec
        it.guard_hits = gh
        if it.dead(st):
            raise AnalysisBroken("%s constructor never returns" % cls)
        self.own(st, v, label)
        return V(r=v.r, d=frozenset([label]))

    def own(self, st, v, label):
        """mark everything reachable from v as input ``label``"""
        it = self.it
        for r in v.r:
            o = st.heap[r]
            if o.attrs is not None:
                at = {}
                for k, x in o.attrs.items():
                    at[k] = self.general(st, x, label + "." + k)
                st.heap[r] = o.rep(attrs=at, origin="input:" + label,
                                   weak=False, deps=EMPTY)

    def general(self, st, x, label):
        """forget the constructor's history of attribute ``label``"""
        d = frozenset([label])
        t, c = set(x.t), set()
        for k in x.c:
            if k[0] in ("NoneType", "<unbound>"):
                c.add(k)
            else:
                t.add({"int": "int", "float": "num", "bool": "bool",
                       "str": "str", "complex": "complex"}.get(k[0], "any"))
        if t & {"num", "float", "complex"}:
            t -= {"int"}
        rs = set()
        for r in x.r:
            rs.add(self.adopt(st, r, label))
        s = None
        if not rs and t and len(t) == 1 and not c and not x.f:
            tt = next(iter(t))
            if tt in ("int", "num", "float"):
                s = self.sym(label, tt)
        return V(frozenset(c), frozenset(t), frozenset(rs), x.f, d, s)

    def adopt(self, st, r, label):
        d = frozenset([label])
        o = st.heap[r]
        org = "input:" + label
        if o.origin == org:
            return r
        if o.kind == "array":
            cplx = False
            for b in o.bases:
                reg = st.heap[b]
                cplx = cplx or reg.dtype == "complex"
                a = tm.arr(label, reg.dtype not in ("complex", None))
                c = (lambda i, a=a: tm.sel(a, i)) \
                    if reg.rank is not None and self.it.terms else None
                st.heap[b] = reg.rep(origin=org, deps=d, content=c,
                                     weak=False)
            st.heap[r] = o.rep(origin=org, deps=EMPTY, content=None,
                               extra=None, weak=False)
            if o.content is not None and len(o.bases) > 1:
                st.heap[r] = st.heap[r].rep(view=None)
            return r
        kw = dict(origin=org, deps=d, weak=False)
        st.heap[r] = o.rep(**kw)
        if o.attrs is not None:
            kw["attrs"] = {k: self.general(st, x, label + "." + k)
                           for k, x in o.attrs.items()}
        if isinstance(o.items, dict):
            kw["items"] = {k: self.general(st, x, "%s[%s]" % (label, k[1]))
                           for k, x in o.items.items()}
        elif o.items is not None:
            kw["items"] = tuple(self.general(st, x, "%s[%d]" % (label, n))
                                for n, x in enumerate(o.items))
        if o.rest is not None:
            kw["rest"] = self.general(st, o.rest, label + "[]")
        if o.kind == "extfn":
            kw["extra"] = tm.mk("atom", (label,))
        st.heap[r] = st.heap[r].rep(**kw)
        return r

    def dciv(self, st, label):
        it = self.it
        mod = "qmix.exp.iv_data"
        v = it.lookup_public(mod + ".DCIVData") \
            if (("mod", mod), "DCIVData") in it.base.loc else None
        fields = None
        for f in (v.f if v is not None else ()):
            if isinstance(f, tuple) and f[0] == "nt":
                fields = f[2]
        if fields is None:
            # obtain the structure from the importer itself
            cv = it.lookup_public(mod + ".dciv_curve")
            rec, it.record = it.record, False
            r = it.call(cv, [self.array(st, label + ".iv", 2)],
                        {"verbose": FALSEV}, st, self.node("dc:" + label))
            it.record = rec
            el, _, _ = it.models.iterate(st, r, self.node("dcu:" + label))
            if not el:
                raise AnalysisBroken("DC data structure not understood")
            self.own(st, el[-1], label)
            return el[-1]
        arrs = {"vnorm", "inorm", "vraw", "iraw", "vrsg", "irsg", "vrn",
                "irn", "vint", "iint"}
        attrs = {}
        for n in fields:
            lab = label + "." + n
            if n in SCALAR_DC:
                attrs[n] = unk("num", frozenset([lab]),
                               self.sym(lab, "num"))
            elif n == "offset":
                attrs[n] = self.make1(st, "tuple", lab)
            else:
                attrs[n] = self.array(st, lab, 1)
        oid = ("in", label, "dciv")
        st.heap[oid] = O("inst", cls="DCIVData", attrs=attrs,
                         extra=("fields", fields), origin="input:" + label)
        return V(r=frozenset([oid]), d=frozenset([label]))

    # ---------------------------------------------------------- functions
    def options(self, st, label="kw", present=None, values=None,
                keys=None):
        """a **kwargs dict in which every option may or may not be given"""
        it = self.it
        pv = it.base.loc.get((("mod", "qmix.exp.parameters"), "params"))
        if pv is None:
            raise AnalysisBroken("default table of options is gone")
        items = {}
        dflts, _ = it.models.dict_view(it.base, pv)
        for k, dv in dflts.items():
            if keys is not None and k[1] not in keys:
                continue
            v = optval(self, st, k[1], V(dv.c, dv.t, dv.r, dv.f),
                       label + "." + k[1])
            if present is None:
                v = join(UNBOUND, v)
            items[k[1]] = v
        for k, v in (values or {}).items():
            items[k] = v
        return items

    def call(self, name, st=None, args=None, extra_kw=None, selfspec=None,
             types=None, opts=True, values=None):
        """run entry ``name`` on arbitrary inputs; (state, value, labels)"""
        it = self.it
        st = st if st is not None else self.state()
        cv = it.lookup_public(name)
        fs = list(cv.f)
        fn = None
        recv = []
        for f in fs:
            if isinstance(f, ClassInfo):
                c, init = f.lookup("__init__")
                fn = next(iter(init.f)).func.node if init else None
                skip = 1
            elif isinstance(f, Closure):
                fn = f.func.node
                skip = 0
                if f.func.cls is not None and \
                        f.func.name not in f.func.cls.static:
                    skip = 1
                    recv = [selfspec]
        if fn is None:
            raise AnalysisBroken("%s is not a function" % name)
        a = fn.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        kwargs = {}
        types = types or {}
        pargs = list(recv)
        for p in pos[skip:] + [q.arg for q in a.kwonlyargs]:
            if args and p in args:
                if args[p] is not None:
                    kwargs[p] = args[p]
                continue
            spec = types.get(p) or TYPES.get(p)
            if spec is None:
                spec = "any"
                it.event("unknownparam", fn, name=p)
            kwargs[p] = self.make(st, spec, p)
        if a.kwarg is not None and opts:
            for k, v in self.options(st, values=values).items():
                kwargs.setdefault(k, v)
        for k, v in (extra_kw or {}).items():
            kwargs[k] = v
        saved = (it.pc, list(it.frames), list(it.stack), it.ctx,
                 list(it.guard_hits))
        try:
            v = it.call(cv, pargs, kwargs, st, self.node("entry:" + name))
        finally:
            it.pc, it.frames, it.stack, it.ctx = saved[:4]
        return st, v


SCALAR_DC = {"vgap", "rn", "rsg", "fgap", "igap", "rsn"}

FUNCS = """
qmix.circuit.read_circuit
qmix.harmonic_balance.harmonic_balance
qmix.harmonic_balance.check_hb_error
qmix.qtcurrent.qtcurrent
qmix.qtcurrent.interpolate_respfn
qmix.qtcurrent.calculate_phase_factor_coeff
qmix.mathfn.ivcurve_models.perfect
qmix.mathfn.ivcurve_models.perfect_kk
qmix.mathfn.ivcurve_models.polynomial
qmix.mathfn.ivcurve_models.exponential
qmix.mathfn.ivcurve_models.expanded
qmix.mathfn.kktrans.kk_trans
qmix.mathfn.kktrans.kk_trans_trapz
qmix.mathfn.misc.slope
qmix.mathfn.misc.slope_span_n
qmix.mathfn.filters.gauss_conv
qmix.exp.clean_data.remove_nans_xy
qmix.exp.clean_data.sort_xy
qmix.exp.clean_data.remove_doubles_xy
qmix.exp.clean_data.clean_xy
qmix.exp.clean_data.xy_to_matrix
qmix.exp.clean_data.remove_nans_matrix
qmix.exp.clean_data.sort_matrix
qmix.exp.clean_data.remove_doubles_matrix
qmix.exp.clean_data.clean_matrix
qmix.exp.clean_data.matrix_to_xy
qmix.exp.if_response.if_response
qmix.exp.iv_data.dciv_curve
qmix.exp.iv_data.iv_curve
qmix.exp.if_data.dcif_data
qmix.exp.if_data.if_data
""".split()

CLASSES = """
qmix.circuit.EmbeddingCircuit
qmix.respfn.RespFn
qmix.respfn.RespFnFromIVData
qmix.respfn.RespFnPolynomial
qmix.respfn.RespFnExponential
qmix.respfn.RespFnPerfect
qmix.exp.exp_data.DCData
qmix.exp.exp_data.PumpedData
""".split()
