"""Interface contracts: figures, files, attributes, defaults, locks."""
import ast
import re

from .. import strpat
from ..drive import Drive
from ..interp import ClassInfo, Closure
from ..par import par
from ..project import AnalysisBroken
from ..values import V, O, UNB, UNBOUND, NONE, TRUEV, FALSEV, const, ck, join
from .effects import params_of, resp_kw
from .flow import params_of_any, entry

CHECKS = {}


def check(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn
    return deco


def only_none(v):
    return bool(v.c) and all(k[0] == "NoneType" for k in v.c) and not (
        v.t or v.r or v.f)


def is_true(v):
    return v.c == TRUEV.c and not (v.t or v.r or v.f)


def figs(st):
    return [(k, o) for k, o in st.heap.items() if o.kind == "fig"]


def scenario_kw(d, name):
    k = {}
    rk = resp_kw(d, name)
    if rk is not None:
        k = {"extra_kw": rk, "opts": False}
    if name.endswith("PumpedData.plot_all"):
        k = {"opts": False}
    return k


# ---------------------------------------------------------------- C24
@check("C24")
def figures(rep, thorough):
    """figure name and axis arguments are honoured by every plot method"""
    rep.rule = (
        "every callable with a fig_name parameter is analysed four times "
        "(name given / not, axis given / not): with a name every path "
        "returns None after saving the drawn figure to exactly that name "
        "and closing it; without, nothing is written and closed and the "
        "axis drawn on is returned; a given axis is the one drawn on and "
        "no other figure is created; the folder functions close every "
        "figure they create")
    d = Drive(terms=False)
    todo = []
    for name, kind, cls in d.entries:
        if kind == "property":
            continue
        ps = params_of_any(d, name, kind, cls)
        if "fig_name" in ps:
            for nm in (True, False):
                for ax in ((True, False) if "ax" in ps else (False,)):
                    todo.append((name, kind, cls, nm, ax))
        elif name.endswith((".plot_all", ".plot_overall_results")):
            todo.append((name, kind, cls, None, None))

    def job(x):
        name, kind, cls, nm, ax = x
        out = []
        st = d.w.state()
        if nm is None:
            r = d.run(name, kind, cls, st=st, **scenario_kw(d, name))
            if r.dead:
                return [("dead", "never returns")], 0
            bad = [k for k, o in figs(r.st) if o.origin == "fresh"
                   and not is_true(o.attrs["closed"])]
            if bad:
                out.append(("leaves a figure open",
                            "%s may return with a figure it created still "
                            "open (created at %s)"
                            % (name, place(d, bad[0]))))
            return out, len(figs(r.st))
        txt = "fig_name %s%s" % ("given" if nm else "not given",
                                 ", ax given" if ax else "")
        for pair in ((False, True) if ax else (False,)):
            st = d.w.state()
            args = {"fig_name": d.w.make(st, "str", "fig_name")
                    if nm else NONE}
            if "ax" in params_of_any(d, name, kind, cls):
                args["ax"] = axes_arg(d, st, pair) if ax else NONE
            kw = scenario_kw(d, name)
            if kind == "method":
                kw["selfspec"] = complete(st, d.receiver(st, cls))
            r = d.run(name, kind, cls, st=st, args=args, **kw)
            if not r.dead:
                break
        if r.dead:
            return [("never returns: " + txt,
                     "%s never returns with %s" % (name, txt))], 0
        st = r.st
        saves = [e for e in r.events if e.kind == "fs"]
        fresh = [(k, o) for k, o in figs(st) if o.origin == "fresh"]
        given = [(k, o) for k, o in figs(st) if o.origin == "input:ax"]
        if ax:
            if fresh:
                out.append(("creates a figure although ax is given",
                            "%s creates a figure at %s although an axis is "
                            "given" % (name, place(d, fresh[0][0]))))
            if not any(e.kind == "axcall" for e in r.events):
                out.append(("does not draw on ax",
                            "%s never draws on the axis it is given" % name))
        mine = given if ax else fresh
        if nm:
            if not only_none(r.value):
                out.append(("returns a value with fig_name",
                            "%s may return something else than None when a "
                            "figure name is given" % name))
            for k, o in fresh + given:
                if not is_true(o.attrs["closed"]):
                    out.append(("does not close the figure",
                                "%s may leave its figure open when a figure "
                                "name is given%s"
                                % (name, " and ax" if ax else "")))
            if not any(is_true(o.attrs["saved"]) for k, o in mine):
                out.append(("does not save the figure",
                            "%s may return without saving the figure it "
                            "drew when a figure name is given%s"
                            % (name, " and ax" if ax else "")))
            want = strpat.hole(d.it, args["fig_name"], "", st)
            for e in saves:
                p = e.data.get("path")
                if e.data.get("d") is not None and \
                        "fig_name" not in e.data["d"]:
                    out.append(("saves elsewhere", "%s: %s writes a file "
                                "that is not named by fig_name"
                                % (d.it.p.where(e.node), name)))
                elif p is not None and [tuple(x) for x in p] != [
                        tuple(x) for x in want]:
                    out.append(("changes the file name", "%s: %s does not "
                                "save to the name it is given"
                                % (d.it.p.where(e.node), name)))
        else:
            for e in saves:
                out.append(("writes a file without fig_name",
                            "%s: %s writes a file although no name is given"
                            % (d.it.p.where(e.node), name)))
            for k, o in fresh + given:
                if not only_false(o.attrs["closed"]):
                    out.append(("closes the figure without fig_name",
                                "%s may close the figure although no name "
                                "is given" % name))
            v = r.value
            bad = bool(v.c or v.t or v.f)
            rs = []
            for k in v.r:
                o = st.heap.get(k)
                if o is not None and o.kind in ("tuple", "list") and o.items:
                    rs += [st.heap.get(q) for y in o.items for q in y.r]
                else:
                    rs.append(o)
            if bad or not rs or any(o is None or o.kind not in (
                    "axes", "tuple", "list") for o in rs):
                out.append(("does not return the axis",
                            "%s may return something else than the axis "
                            "when no figure name is given" % name))
            elif ax and any(o.kind == "axes" and o.origin != "input:ax"
                            for o in rs):
                out.append(("returns another axis",
                            "%s may return another axis than the given one"
                            % name))
        return out, len(saves)

    for x, (bad, n) in zip(todo, par(job, todo)):
        rep.count("scenarios")
        rep.count("saves_or_figures_seen", n)
        for key, text in bad:
            rep.finding("%s %s" % (x[0], key), text)
    rep.count("plot_functions", len({x[0] for x in todo}))
    if rep.counts["plot_functions"] < 16:
        raise AnalysisBroken("plot functions are gone")


def axes_arg(d, st, pair):
    """an axis, or a tuple of two axes of one figure, of the caller"""
    a = d.w.make(st, "axes", "ax")
    if not pair:
        return a
    (k,) = a.r
    k2 = k + ("2",)
    st.heap[k2] = st.heap[k].rep()
    o = O("tuple", items=(a, V(r=frozenset([k2]), d=a.d)), origin="input:ax")
    st.heap[("in", "ax", "pair")] = o
    return V(r=frozenset([("in", "ax", "pair")]), d=a.d)


def complete(st, v):
    """a receiver all of whose optional results are there"""
    for oid in v.r:
        o = st.heap[oid]
        at = {}
        for k, x in (o.attrs or {}).items():
            c = frozenset(z for z in x.c if z[0] not in ("NoneType", UNB[0]))
            at[k] = V(c, x.t, x.r, x.f, x.d, x._s, x.x) \
                if (c or x.t or x.r or x.f) else x
        st.heap[oid] = o.rep(attrs=at)
    return v


def only_false(v):
    return v.c == FALSEV.c and not (v.t or v.r or v.f)


def place(d, rid):
    for x in rid if isinstance(rid, tuple) else ():
        n = d.it.p.node_by_id(x) if hasattr(d.it.p, "node_by_id") else None
        if n is not None:
            return d.it.p.where(n)
    return str(rid)[:60]


# ---------------------------------------------------------------- C25
#: parameters that name a file or folder the callable may write to
OUT = {"fig_name", "fig_folder", "filename"}
IN = {"filename", "data_folder"}


@check("C25")
def files(rep, thorough):
    """files are written only where the caller says, and are closed"""
    rep.rule = (
        "all file system operations reachable from every public callable: "
        "each path written must begin with a path parameter of that "
        "callable; callables without one perform none; file handles are "
        "closed on every path to a normal return; no processes are started; importing the "
        "package touches no files")
    d = Drive(terms=False)
    for e in d.w.load_events:
        if e.kind in ("fs", "exec"):
            rep.finding("import-time %s" % e.kind,
                        "%s: file or process access at import"
                        % d.it.p.where(e.node))
    jobs = list(d.entries)

    def job(x):
        name, kind, cls = x
        out = []
        r = d.run(name, kind, cls, **scenario_kw(d, name))
        ps = set(params_of_any(d, name, kind, cls)) \
            if kind != "property" else set()
        n = 0
        for e in r.events:
            if e.kind == "exec" and "clear" in str(e.data.get("arg")) \
                    and name.endswith("print_intro"):
                continue
            if e.kind == "exec":
                out.append(("starts a process", "%s: %s starts a process"
                            % (d.it.p.where(e.node), name)))
            if e.kind != "fs":
                continue
            n += 1
            mode = str(e.data.get("mode"))
            wr = any(c in mode for c in "wax+?")
            ok = ps & (OUT if wr else (OUT | IN))
            lab = {str(z).split(".")[0].split("[")[0]
                   for z in e.data.get("d") or ()}
            verb = "writes" if wr else "reads"
            if not ok or not lab & ok:
                out.append(("%s a file it was not told to" % verb,
                            "%s: %s %s a file that no parameter names"
                            % (d.it.p.where(e.node), name, verb)))
                continue
            for p in e.data.get("paths") or [e.data.get("path")]:
                if p and p[0][0] == "L":
                    out.append(("%s outside the given path" % verb,
                                "%s: %s %s under the fixed path %r instead of "
                                "the path it is given"
                                % (d.it.p.where(e.node), name, verb, p[0][1])))
                elif p and p[0][0] == "H":
                    w = p[0][1]
                    src = {str(z).split(".")[0] for z in w[1:]} \
                        if isinstance(w, tuple) else None
                    if src is not None and not src & ok:
                        out.append(("%s outside the given path" % verb,
                                    "%s: %s %s under a path that does not "
                                    "begin with %s" % (
                                        d.it.p.where(e.node), name, verb,
                                        " or ".join(sorted(ok)))))
        if not r.dead:
            for k, o in r.st.heap.items():
                if o.kind == "file" and not is_true(o.attrs["closed"]):
                    out.append(("leaves a file open",
                                "%s may return with a file still open"
                                % name))
        return out, n

    for x, (bad, n) in zip(jobs, par(job, jobs)):
        rep.count("entry_points")
        rep.count("file_operations", n)
        for key, text in bad:
            rep.finding("%s %s" % (x[0], key), text)
    if rep.counts["file_operations"] < 25:
        raise AnalysisBroken("file operations no longer seen")


# ---------------------------------------------------------------- C27
@check("C27")
def locks(rep, thorough):
    """lock and unlock cover all data arrays and nothing else"""
    rep.rule = (
        "the writeable flag of every array attribute of the circuit after "
        "lock() and after unlock(), on every path: all False, all True; "
        "neither call changes a value; every setter writes an array "
        "element in place, so that it fails on a locked circuit")
    d = Drive(terms=False)
    C = "qmix.circuit.EmbeddingCircuit."
    for m, want in (("lock", False), ("unlock", True)):
        n, k, c = entry(d, C + m)
        for prev in (True, False):
            st = d.w.state()
            v = d.receiver(st, c)
            (oid,) = v.r
            for a, x in st.heap[oid].attrs.items():
                for r in x.r:
                    o = st.heap[r]
                    if o.kind == "array":
                        for b in o.bases:
                            st.heap[b] = st.heap[b].rep(
                                wr=frozenset([prev]))
            before = st.copy()
            r = d.run(n, k, c, st=st, selfspec=v)
            if r.dead:
                rep.finding("%s never returns" % m, "%s never returns" % n)
                continue
            seen = 0
            for a, x in sorted(r.st.heap[oid].attrs.items()):
                for q in x.r:
                    o = r.st.heap[q]
                    if o.kind != "array":
                        continue
                    for b in o.bases:
                        seen += 1
                        rep.count("flags_checked")
                        if r.st.heap[b].wr != frozenset([want]):
                            rep.finding(
                                "%s misses %s" % (m, a),
                                "after %s() the array '%s' of the circuit "
                                "may still be %s" % (
                                    m, a, "writeable" if not want
                                    else "locked"))
            if seen < 4:
                raise AnalysisBroken("circuit arrays are gone")
            for e in r.events:
                if e.kind == "mutate" and "flag" not in str(
                        e.data.get("what")):
                    rep.finding("%s changes values" % m,
                                "%s: %s() writes values"
                                % (d.it.p.where(e.node), m))
            for a, x in r.st.heap[oid].attrs.items():
                if x.r != before.heap[oid].attrs[a].r:
                    rep.finding("%s replaces %s" % (m, a),
                                "%s() replaces the attribute '%s'" % (m, a))
    # setters write in place: a locked array must stop them
    for n, k, c in d.entries:
        if not n.startswith(C + "set_") or n.endswith("set_name"):
            continue
        st = d.w.state()
        v = d.receiver(st, c)
        (oid,) = v.r
        own = {a: x.r for a, x in st.heap[oid].attrs.items()}
        r = d.run(n, k, c, st=st, selfspec=v)
        if r.dead:
            raise AnalysisBroken("%s never returns" % n)
        rep.count("setters")
        for a, x in r.st.heap[oid].attrs.items():
            if x.r != own.get(a):
                rep.finding("%s replaces %s" % (n, a),
                            "%s replaces the array '%s' instead of writing "
                            "into it, so that a lock has no effect" % (n, a))


# ---------------------------------------------------------------- C26
READERS = {"data": "PumpedData", "dciv": "DCData"}


def self_reads(cls):
    """attribute names that the methods of a class read from self"""
    out = {}
    for c in cls.mro():
        fs = [f.func.node for v in c.members.values() for f in v.f
              if isinstance(f, Closure)]
        for n in list(fs):
            if not n.args.args:
                continue
            me = n.args.args[0].arg
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, ast.Load) and isinstance(x.value, ast.Name) \
                        and x.value.id == me:
                    out.setdefault(x.attr, x)
    return out


def outer_reads(d, pname):
    """attributes that module functions read from a parameter or a loop
    variable of that name"""
    out = {}
    for name, kind, cls in d.entries:
        if kind != "function" or not name.startswith("qmix.exp.exp_data"):
            continue
        for f in d.it.lookup_public(name).f:
            if isinstance(f, Closure):
                for x in ast.walk(f.func.node):
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.value, ast.Name) and x.value.id == pname \
                            and isinstance(x.ctx, ast.Load):
                        out.setdefault(x.attr, x)
    return out


def configs(short):
    from .flow import S, K
    arr = S("arr2")
    if short == "DCData":
        return [("no IF data", {"dcif": K(None)}, {}),
                ("IF data", {"dcif": arr}, {})]
    if short == "PumpedData":
        out = []
        for iv in (True, False):
            for hot, txt in ((K(None), "no IF data"), (arr, "IF data")):
                for an in (True, False):
                    out.append((
                        "%s, analyze_iv=%s, analyze_if=%s" % (txt, iv, an),
                        {"if_hot": hot, "if_cold": hot},
                        {"analyze_iv": const(iv), "analyze_if": const(an)}))
        return out
    if short.startswith("RespFn"):
        return [("no smear", {}, {"v_smear": NONE}),
                ("smear", {}, {"v_smear": "num"})]
    return [("", {}, {})]


USES = {
    "DCData": ["__str__", "__repr__", "print_info"],
    "PumpedData": ["__str__", "__repr__", "print_info"],
    "EmbeddingCircuit": ["__str__", "__repr__", "print_info", "save_info",
                         "lock", "unlock", "initialize_vj", "vph"],
    "RespFn": ["__call__", "idc", "ikk", "resp", "resp_conj", "resp_swap",
               "didc", "dikk", "plot", "plot_interpolation"],
}


@check("C26")
def complete_objects(rep, thorough):
    """constructed objects have all their attributes on every path"""
    rep.rule = (
        "each class is constructed under each configuration (with and "
        "without IF data, analyses on and off, with and without smear, all "
        "other options arbitrary): every attribute its methods or the "
        "plotting functions read is bound on all paths, and the methods "
        "that apply to every object (text output, evaluation of a response "
        "function, locks) have a normal return and never use a missing "
        "attribute")
    d = Drive(terms=False)
    classes = [(n, c) for n, k, c in d.entries if k == "class"
               and (n.rpartition(".")[2] in USES
                    or n.startswith("qmix.respfn."))]
    if len(classes) < 8:
        raise AnalysisBroken("only %d classes" % len(classes))
    jobs = [(n, c, x) for n, c in classes
            for x in range(len(configs(n.rpartition(".")[2])))]

    def job(x):
        name, cls, k = x
        short = name.rpartition(".")[2]
        txt, args, kw = configs(short)[k]
        out = []
        st = d.w.state()
        ex = dict(resp_kw(d, name) or {})
        opts = not ex
        for o, v in kw.items():
            ex[o] = d.w.make(st, v, "kw." + o) if isinstance(v, str) else v
        if short == "PumpedData":
            ex["freq"] = d.w.make(st, "num", "kw.freq")
        r = d.run(name, "class", cls, st=st, opts=opts, extra_kw=ex,
                  args={p: f(d, st, p) for p, f in args.items()})
        if r.dead:
            return [("cannot be constructed (%s)" % txt,
                     "%s never returns (%s)" % (name, txt))], 0, 0
        need = self_reads(cls)
        for pn, sn in READERS.items():
            if sn == short:
                need.update(outer_reads(d, pn))
        n = 0
        (oid,) = r.value.r
        at = r.st.heap[oid].attrs
        for a, nd in sorted(need.items()):
            if cls.prop(a) or cls.lookup(a)[1] is not None \
                    or a.startswith("__"):
                continue
            n += 1
            v = at.get(a)
            if v is None or UNB in v.c:
                out.append(("%s may be missing" % a,
                            "%s: '%s' of %s is not set on every path of "
                            "the constructor (%s), but read here"
                            % (d.it.p.where(nd), a, name,
                               txt or "any arguments")))
        m = 0
        for u in USES.get(short, USES["RespFn"]):
            full = name + "." + u
            e = [z for z in d.entries if z[0] == full]
            if not e:
                continue
            m += 1
            st2 = r.st.copy()
            q = d.run(*e[0], st=st2, selfspec=r.value, opts=False)
            if q.dead:
                out.append(("%s fails (%s)" % (u, txt),
                            "%s never returns on an object constructed "
                            "with %s" % (full, txt or "any arguments")))
            for ev in q.events:
                if ev.kind == "unbound" and str(
                        ev.data.get("name")).startswith("."):
                    out.append(("%s uses missing %s"
                                % (u, ev.data["name"]),
                                "%s: %s uses attribute %s that may not "
                                "exist (%s)" % (d.it.p.where(ev.node), full,
                                                ev.data["name"], txt)))
        return out, n, m

    for (name, cls, k), (bad, n, m) in zip(jobs, par(job, jobs)):
        rep.count("constructions")
        rep.count("attributes_required", n)
        rep.count("method_runs", m)
        for key, text in bad:
            rep.finding("%s %s" % (name, key), text)
    if rep.counts["attributes_required"] < 200:
        raise AnalysisBroken("attribute reads are gone")


# ---------------------------------------------------------------- C23
def literal(st, v):
    """the Python value of an abstract value, or Ellipsis"""
    if v.t or v.f or v.bottom:
        return Ellipsis
    if v.c and not v.r and len(v.c) == 1:
        k = next(iter(v.c))
        if k == UNB:
            return Ellipsis
        return None if k[0] == "NoneType" else k[1]
    if v.r and not v.c and len(v.r) == 1:
        o = st.heap[next(iter(v.r))]
        if o.kind in ("tuple", "list") and o.items is not None:
            out = [literal(st, x) for x in o.items]
            return Ellipsis if Ellipsis in out else tuple(out)
    return Ellipsis


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) == type(b) and a == b


ENTRY = re.compile(r"^(\s+)(\w+) ?(?:\(([^()]*(?:\([^()]*\)[^()]*)*)\))?: ?"
                   r"(.*)$")
DEFAULT = re.compile(
    r"default(?:s to| is|:)?\s+((?:[-+]?[\d.][\d.eE+-]*\b\.?)|None|True|False"
    r"|\"[^\"]*\"|'[^']*'|\([^()]*\)|\[[^\[\]]*\])")


def documented(doc):
    """parameter -> default literal stated in a docstring"""
    out = {}
    cur, text, ind = None, "", 0

    def close():
        if cur is None:
            return
        m = DEFAULT.search(re.sub(r"\s+", " ", text))
        if m:
            try:
                out.setdefault(cur, ast.literal_eval(
                    m.group(1).rstrip(",;)") if m.group(1)[0] not in "(["
                    else m.group(1)))
            except (ValueError, SyntaxError):
                pass
    # entries may break inside their parenthesis: join such lines first
    lines, buf = [], None
    for ln in (doc or "").splitlines():
        if buf is not None:
            buf += " " + ln.strip()
            if buf.count("(") <= buf.count(")"):
                lines.append(buf)
                buf = None
        elif re.match(r"^\s+\w+ ?\(", ln) and ln.count("(") > ln.count(")"):
            buf = ln
        else:
            lines.append(ln)
    if buf is not None:
        lines.append(buf)
    for ln in lines:
        m = ENTRY.match(ln)
        if m and m.group(2) not in ("Args", "Returns", "Note", "Warning"):
            if cur is None or len(m.group(1)) <= ind:
                close()
                cur, ind = m.group(2), len(m.group(1))
                text = "%s: %s" % (m.group(3) or "", m.group(4))
                continue
        if cur is not None:
            if ln.strip() and len(ln) - len(ln.lstrip()) <= ind:
                close()
                cur, text = None, ""
            else:
                text += " " + ln.strip()
    close()
    return out


TABLE = re.compile(r"``(\w+) = ([^`]+)``")


@check("C23")
def defaults(rep, thorough):
    """documented defaults are the defaults used"""
    rep.rule = (
        "the default stated in the documentation of a parameter or option "
        "is compared with the value the code uses: for parameters the "
        "evaluated default of the signature, for the data options the "
        "value in the default table and the value every importer obtains "
        "when it looks the option up and none was given, and for the "
        "keyword options of the response functions the value of every read "
        "of the option during a construction without options")
    d = Drive(terms=False)
    it = d.it
    # (a) signature defaults
    for name, kind, cls in d.entries:
        if kind == "property":
            continue
        if kind == "class":
            got = cls.lookup("__init__")[1]
            doc = ast.get_docstring(cls.node) or ""
            fs = [f for f in (got.f if got else ())
                  if isinstance(f, Closure)]
            doc += "\n" + "\n".join(
                ast.get_docstring(f.func.node) or "" for f in fs)
        elif kind == "method":
            got = cls.lookup(name.rpartition(".")[2])[1]
            fs = [f for f in (got.f if got else ())
                  if isinstance(f, Closure)]
            doc = "\n".join(ast.get_docstring(f.func.node) or ""
                            for f in fs)
        else:
            fs = [f for f in it.lookup_public(name).f
                  if isinstance(f, Closure)]
            doc = "\n".join(ast.get_docstring(f.func.node) or ""
                            for f in fs)
        want = documented(doc)
        for f in fs:
            have = dict(f.defaults)
            for p, v in have.items():
                if p not in want or v is None:
                    continue
                lit = literal(it.base, v)
                if lit is Ellipsis:
                    continue
                rep.count("signature_defaults")
                if not same(lit, want[p]):
                    rep.finding(
                        "%s default of %s" % (name, p),
                        "%s: the documented default of '%s' is %r, the "
                        "signature has %r" % (it.p.where(f.func.node), p,
                                              want[p], lit))
    if rep.counts.get("signature_defaults", 0) < 60:
        raise AnalysisBroken("documented defaults not recognised")
    # (b) the table of data options
    from .flow import option_table, IMPORTERS, X
    oid, o = option_table(d)
    mod = it.p.modules["qmix.exp.parameters"]
    tree = mod.tree if hasattr(mod, "tree") else mod
    table = {}
    for k, txt in TABLE.findall(ast.get_docstring(tree) or ""):
        try:
            table[k] = ast.literal_eval(txt)
        except (ValueError, SyntaxError):
            pass
    have = {k[1]: v for k, v in o.items.items()}
    for k, lit in sorted(table.items()):
        if k not in have:
            rep.finding("no default for %s" % k,
                        "the documented option '%s' has no default" % k)
            continue
        got = literal(it.base, have[k])
        rep.count("table_defaults")
        if got is not Ellipsis and not same(got, lit):
            rep.finding("table default of %s" % k,
                        "the documented default of '%s' is %r, the table "
                        "has %r" % (k, lit, got))
    if rep.counts.get("table_defaults", 0) < 30:
        raise AnalysisBroken("documented options not recognised")
    full = {k: literal(it.base, v) for k, v in have.items()}
    # (c) values obtained by the importers without options
    names = IMPORTERS + [n for n, k, c in d.entries if k == "method"
                         and n.startswith(X + "exp_data.PumpedData.")]
    pump = None
    for n in names:
        name, kind, cls = entry(d, n)
        kw = {}
        st = d.w.state()
        if kind == "method":
            st, kw["selfspec"] = pump[0].copy(), pump[1]
        elif n.endswith("exp_data.PumpedData"):
            kw["extra_kw"] = {"freq": d.w.make(st, "num", "kw.freq")}
        it.watched = []
        r = d.run(name, kind, cls, st=st, opts=False, **kw)
        seen, it.watched = it.watched, None
        if n.endswith("exp_data.PumpedData"):
            pump = (r.st, r.value)
        for node, obj, key, v, s2 in seen:
            keys = {k[1] for k in obj.items}
            if key in keys or obj.rest is not None or key not in full \
                    or not keys <= set(full) | {"dcif"}:
                continue
            lit = literal(s2, v)
            if lit is Ellipsis or full[key] is Ellipsis or lit is None:
                continue
            rep.count("option_reads")
            if not same(lit, full[key]):
                rep.finding(
                    "%s uses another default of %s" % (n, key),
                    "%s: %s without '%s' uses %r, the documented default "
                    "is %r" % (it.p.where(node), n, key, lit, full[key]))
    # (d) options of the response functions
    for name, kind, cls in d.entries:
        if kind != "class" or not name.startswith("qmix.respfn."):
            continue
        want = documented(ast.get_docstring(cls.node))
        if not want:
            continue
        st = d.w.state()
        it.watched = []
        d.run(name, kind, cls, st=st, opts=False)
        seen, it.watched = it.watched, None
        for node, obj, key, v, s2 in seen:
            if key not in want or not any(
                    k[1] == "max_npts_dc" for k in obj.items):
                continue
            lit = literal(s2, v)
            if lit is Ellipsis:
                continue
            rep.count("response_option_reads")
            if not same(lit, want[key]):
                rep.finding(
                    "%s option %s" % (name, key),
                    "%s: %s without '%s' uses %r, the documented default "
                    "is %r" % (it.p.where(node), name, key, lit, want[key]))
    if rep.counts.get("option_reads", 0) < 30 \
            or rep.counts.get("response_option_reads", 0) < 20:
        raise AnalysisBroken("option reads are gone")
