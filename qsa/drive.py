"""Run the analysis from every public entry point of the package."""
from .entries import World
from .interp import ClassInfo, Closure
from .project import AnalysisBroken
from .values import V, unk, const

#: classes whose arbitrary instances are described in entries.py
KINDS = {"qmix.circuit.EmbeddingCircuit": "circuit",
         "qmix.respfn.RespFn": "resp",
         "qmix.exp.exp_data.DCData": "dcdata",
         "qmix.exp.exp_data.PumpedData": "pumped"}

#: parameter kinds that differ from the table by parameter name
SPECIAL = {
    "qmix.exp.exp_data.PumpedData": {"dciv": "dcdata"},
    "qmix.exp.exp_data.plot_if_spectrum": {"fig_folder": "none|str"},
    "qmix.circuit.EmbeddingCircuit.set_alpha": {"zj": "num"},
}


class Run(object):
    def __init__(self, name, kind, st, value, events, dead, exits):
        self.name, self.kind, self.st = name, kind, st
        self.value, self.events, self.dead = value, events, dead
        self.exits = exits            # (rets, raises) of the entry itself


def public_entries(w):
    """(name, kind, owner class or None) of every public callable"""
    it = w.it
    out = []
    seen = set()
    for mod in sorted(it.p.modules):
        for (sc, nm), v in sorted(((k, v) for k, v in it.base.loc.items()
                                   if k[0] == ("mod", mod)),
                                  key=lambda kv: str(kv[0])):
            if nm.startswith("_"):
                continue
            for f in v.f:
                if isinstance(f, Closure) and f.func.module == mod \
                        and f.func.cls is None:
                    nmq = mod + "." + nm
                    if nmq not in seen:
                        seen.add(nmq)
                        out.append((nmq, "function", None))
                elif isinstance(f, ClassInfo) and f.module == mod:
                    q = mod + "." + nm
                    if q in seen:
                        continue
                    seen.add(q)
                    out.append((q, "class", f))
                    done = set()
                    for c in f.mro():
                        for m, mv in sorted(c.members.items()):
                            if m in done:
                                continue
                            done.add(m)
                            if m == "__init__" or (
                                    m.startswith("_")
                                    and not m.startswith("__")):
                                continue
                            if any(isinstance(g, Closure) for g in mv.f):
                                out.append((q + "." + m, "method", f))
                        for m in sorted(c.props):
                            if m not in done and not m.startswith("_"):
                                done.add(m)
                                out.append((q + "." + m, "property", f))
    return out


def modname(f):
    return f.module if isinstance(f.module, str) else f.module.name


class Drive(object):
    def __init__(self, world=None, **kw):
        self.w = world or World(**kw)
        self.it = self.w.it
        self.entries = public_entries(self.w)
        if len(self.entries) < 60:
            raise AnalysisBroken("only %d public entries found"
                                 % len(self.entries))

    def receiver(self, st, cls, label="self"):
        kind = KINDS.get(cls.qual)
        if kind:
            return self.w.make(st, kind, label)
        # any other class: whatever its own constructor builds
        args = {}
        init = cls.lookup("__init__")[1]
        fn = next((f for f in (init.f if init else ())
                   if isinstance(f, Closure)), None)
        if fn is not None:
            from .entries import TYPES
            a = fn.func.node.args
            for p in (a.posonlyargs + a.args)[1:] + a.kwonlyargs:
                args[p.arg] = self.w.make(
                    st, TYPES.get(p.arg, "any"), label + "." + p.arg)
            if a.kwarg is not None:
                for k, v in self.w.options(st, label + ".kw").items():
                    args.setdefault(k, v)
        return self.w.built(st, cls.qual, args, label)

    def run(self, name, kind, cls, **kw):
        it = self.it
        st = kw.pop("st", None) or self.w.state()
        n0 = len(it.events)
        exits = [None]
        types = dict(SPECIAL.get(name, {}))
        types.update(kw.pop("types", None) or {})
        base = None
        if kind in ("method", "property"):
            if "selfspec" not in kw:
                kw["selfspec"] = self.receiver(st, cls)
            # shared method of a base class: same parameter kinds
        it._evkeys.clear()
        n0 = len(it.events)

        def on_return(fn, rets, raises, node):
            if not it.stack[:-1]:
                exits[0] = (list(rets), list(raises))
        it.on_return = on_return
        try:
            if kind == "property":
                v = it.get_attr(st, kw["selfspec"], name.rpartition(".")[2],
                                self.w.node("prop:" + name))
            else:
                st, v = self.w.call(name, st, types=types, **kw)
        finally:
            del it.on_return
        return Run(name, kind, st, v, it.events[n0:], it.dead(st), exits[0])

    def all(self, skip=(), **kw):
        for name, kind, cls in self.entries:
            if name in skip:
                continue
            yield self.run(name, kind, cls, **dict(kw))
