"""C12, C14, C15: the tunnelling current against its definition."""
from .. import terms as tm
from ..lab import Lab
from ..values import const, unk
from .formula import need

QT = "qmix.qtcurrent."

#: (tones, harmonics, summation limits, normalised frequencies)
FACTORS = [
    (1, 1, 3), (1, 2, 3), (1, 3, 4),
    (1, 1, (2,)), (2, 1, (1, 3)),
    (2, 1, (3, 1)), (2, 2, (3, 2)),
    (2, 2, (2, 3)), (3, 1, (1, 2, 3)),
    (3, 2, (2, 1, 2)),
    (4, 1, (1, 2, 1, 2)),
    (4, 2, (2, 2, 1, 2)),
    (2, 3, 2), (4, 1, 2),
]
FACTORS_T = [
    (1, 4, 6), (2, 3, (4, 5)),
    (3, 3, (3, 4, 5)),
    (4, 3, (3, 4, 5, 2)),
    (1, 2, 12), (2, 2, (9, 4)),
]
TABLE = [
    (1, 3), (1, (2,)), (2, (1, 2)), (2, (2, 1)), (2, 1), (3, (1, 2, 1)),
    (3, (2, 1, 1)), (3, (1, 1, 2)), (3, 1), (4, (1, 1, 1, 2)),
    (4, (2, 1, 1, 1)), (4, (1, 2, 1, 1)), (4, (1, 1, 2, 1)), (4, 1),
]
TABLE_T = [(1, 15), (2, (5, 6)), (3, (2, 3, 2)), (4, (2, 1, 2, 1))]
#: (tones, harmonics, limits, frequencies, requested)
CURRENT = [
    (1, 1, 2, (0, .3), [0, .3, .6, -.3]),
    (1, 1, 2, (0, .3), 0),
    (1, 1, 2, (0, .3), 0.),
    (1, 1, 2, (0, .3), .3),
    (1, 1, 2, (0, .30002), [.29998, 0.00001, .3004]),
    (1, 2, 3, (0, .3), [.6, 0, .3, .9]),
    (1, 2, 3, (0, .3), .6),
    (1, 3, 2, (0, .2), [0, .2, .4, .6, .8]),
    (2, 1, (1, 2), (0, .3, .32), [0, .3, .32, .02, .62, .31]),
    (2, 1, (2, 1), (0, .32, .3), [0, .32, .3, .02, .62]),
    (2, 1, (1, 1), (0, .3, .32), .02),
    (2, 1, 1, (0, .3, .32), 0),
    (2, 1, 1, (0, .3, .3004), .0004),
    (2, 1, 1, (0, .3, .3), [0, .3, .6]),
    (2, 2, (1, 1), (0, .3, .6), [0, .3, .6, .9]),
    (2, 2, (2, 1), (0, .3, .32), [.28]),
    (3, 1, (1, 2, 1), (0, .3, .32, .35), [.3, .02, .03]),
    (3, 1, (1, 1, 1), (0, .3, .32, .35), [0, .35, .32, .27]),
    (3, 1, (2, 1, 1), (0, .3, .32, .35), [.27]),
    (3, 1, (1, 2, 1), (0, .3, .32, .35), [.27]),
    (3, 1, (1, 1, 2), (0, .3, .32, .35), [.27]),
    (4, 1, (2, 1, 1, 1), (0, .3, .32, .37, .39), [.64]),
    (4, 1, (1, 2, 1, 1), (0, .3, .32, .37, .39), [.64]),
    (4, 1, (1, 1, 2, 1), (0, .3, .32, .37, .39), [.64]),
    (4, 1, (1, 1, 1, 2), (0, .3, .32, .37, .39), [.64]),
    (3, 1, 1, (0, .35, .3, .32), .05),
    (3, 1, 1, (0, .35, .3, .32), 0),
    (4, 1, 1, (0, .3, .32, .37, .39), [.3, .02, .14, .39]),
    (4, 1, 1, (0, .3, .32, .37, .39), .37),
]
#: any frequencies, any requested one
ANY = [(1, 1, 2), (1, 2, 2), (2, 1, 1), (2, 1, (2, 1)), (2, 1, (1, 2)),
       (3, 1, 1)]
ANY_T = [(2, 2, 1), (1, 2, 3)]
CURRENT_T = [
    (1, 2, 5, (0, .3), [0, .3, .6]), (1, 1, 9, (0, .3), [0, .3]),
    (1, 4, 3, (0, .2), [0, .2, .4, .6, .8]),
    (2, 1, (3, 3), (0, .3, .32), [0, .3, .32, .02]),
    (2, 2, (2, 2), (0, .3, .32), [0, .3, .32, .02, .6]),
    (3, 1, (2, 1, 2), (0, .3, .32, .35), [0, .3, .02]),
    (3, 1, (1, 2, 2), (0, .3, .32, .35), [.35, .05]),
    (4, 1, (1, 1, 2, 1), (0, .3, .32, .37, .39), [0, .3]),
    (4, 1, (2, 1, 1, 1), (0, .3, .32, .37, .39), [0, .02]),
]


class Case(object):
    """a circuit with known frequencies and limits; everything else is
    symbolic"""

    def __init__(self, lab, nf, npp, nb, freq):
        self.lab, self.nf, self.npp = lab, nf, npp
        self.st = st = lab.state()
        self.cct = lab.circuit(st, nf, npp)
        self.N = lab.attr(st, self.cct, "vb_npts").s
        if freq is None:
            self.freq = lab.attr(st, self.cct, "freq")
        else:
            self.freq = lab.frequencies(st, self.cct, freq)
        self.vj = lab.array(st, "vj", 3, True, shape=(
            nf + 1, npp + 1, self.N))
        self.nbt = (nb,) * nf if isinstance(nb, int) else nb
        self.nb = const(nb) if isinstance(nb, int) else \
            lab.seq(st, "tuple", nb, "nb")
        self.nbs = lab.seq(st, "tuple", self.nbt, "nbs")

    def table(self):
        return self.lab.array(self.st, "table", self.nf + 1, True, tuple(
            2 * x + 1 for x in self.nbt) + (self.N,))

    def text(self):
        return "%d tone(s), %d harmonic(s), limits %s" % (
            self.nf, self.npp, "/".join(map(str, self.nbt)))


HINTS = [{"cct.vb_npts": 4, "npts": 23, "kk_n": 2}]


def response(lab, st):
    n = tm.atom("npts", True, True, True)
    tm.bound(n, 20)
    volt = lab.array(st, "volt", shape=(n,))
    curr = lab.array(st, "curr", shape=(n,))
    return lab.run("qmix.respfn.RespFn", st, {
        "voltage": volt, "current": curr}, kw={
            "verbose": const(False), "v_smear": const(None)})


def c15(rep, thorough):
    rep.rule = ("calculate_phase_factor_coeff for the listed numbers of "
                "tones, harmonics and summation limits and any junction "
                "voltage: every coefficient equals the truncated "
                "convolution of the Jacobi-Anger series")
    lab = Lab(rep, unroll=400)

    def one(item):
        nf, npp, nb = item
        c = Case(lab, nf, npp, nb, None)
        a = lab.run(QT + "calculate_phase_factor_coeff", c.st, {
            "vj": c.vj, "freq": c.freq, "num_f": const(nf),
            "num_p": const(npp), "num_b": c.nb})
        b = lab.spec("current.factor_array", c.st, [
            c.vj, c.freq, const(nf), const(npp), c.nbs])
        lab.same("phase factors of " + c.text(), *(a + b), hints=HINTS)
    lab.spread(FACTORS + (FACTORS_T if thorough else []), one)
    need(rep, "comparisons", 10)


def c12(rep, thorough):
    rep.rule = ("interpolate_respfn for the listed numbers of tones and "
                "summation limits, any bias sweep and response function: "
                "the entry [k, l, ..] (negative from the end) is the "
                "response at vb + k f1 + l f2 + ..; qtcurrent without a "
                "prepared table computes the same")
    lab = Lab(rep, unroll=400)
    fr = (0, .3, .32, .37, .39)

    def one(item):
        nf, nb = item
        c = Case(lab, nf, 1, nb, None)
        st, resp = response(lab, c.st)
        a = lab.run(QT + "interpolate_respfn", st, {
            "cct": c.cct, "resp": resp, "num_b": c.nb})
        b = lab.spec("current.response_table", st, [c.cct, resp, c.nbs])
        lab.same("response table for " + c.text(), *(a + b), hints=HINTS)
        if sum(c.nbt) > 4:
            return
        c = Case(lab, nf, 1, nb, fr[:nf + 1])
        st, resp = response(lab, c.st)
        ask = lab.seq(st, "list", [fr[nf]], "ask")
        q = {"vj": c.vj, "cct": c.cct, "resp": resp, "freq_list": ask,
             "num_b": c.nb, "verbose": const(False)}
        s1, tab = lab.run(QT + "interpolate_respfn", st, {
            "cct": c.cct, "resp": resp, "num_b": c.nb})
        a = lab.run(QT + "qtcurrent", st, dict(q, resp_matrix=const(None)))
        b = lab.run(QT + "qtcurrent", s1, dict(q, resp_matrix=tab))
        lab.same("qtcurrent without prepared table, " + c.text(),
                 *(a + b), hints=HINTS)
    lab.spread(TABLE + (TABLE_T if thorough else []), one)
    need(rep, "comparisons", 10)


def c14(rep, thorough):
    rep.rule = ("qtcurrent for the listed numbers of tones, harmonics, "
                "summation limits, frequencies and requests, for any "
                "junction voltage and response table: the current at every "
                "requested frequency is the sum of I(a, b, ..) over all "
                "combinations of harmonics with that frequency")
    lab = Lab(rep, unroll=400)
    tm.MAXTERMS = 6000 if thorough else 2500

    def one(item):
        if len(item) == 3:
            return any_frequency(lab, *item)
        nf, npp, nb, freq, ask = item
        c = Case(lab, nf, npp, nb, freq)
        st = c.st
        many = isinstance(ask, list)
        asked = lab.seq(st, "list", ask, "ask") if many else const(ask)
        asks = lab.seq(st, "tuple", ask if many else [ask], "asks")
        tab = c.table()
        a = lab.run(QT + "qtcurrent", st, {
            "vj": c.vj, "cct": c.cct, "resp": const(None),
            "freq_list": asked, "num_b": c.nb, "verbose": const(False),
            "resp_matrix": tab})
        b = lab.spec("current." + ("currents" if many else "current_ac"
                                   if ask else "current_dc"), st,
                     [c.vj, c.cct, asks, c.nbs, tab])
        lab.same("current at %s of %s at %s" % (
            ask, freq[1:], c.text()), *(a + b), hints=HINTS)
    todo = ANY + CURRENT
    if thorough:
        todo = ANY_T + CURRENT_T + todo
    lab.spread(reversed(todo), one)
    need(rep, "comparisons", 15)


def any_frequency(lab, nf, npp, nb):
    c = Case(lab, nf, npp, nb, None)
    tab = c.table()
    ask = lab.seq(c.st, "list", [lab.num("fo")], "ask")
    a = lab.run(QT + "qtcurrent", c.st, {
        "vj": c.vj, "cct": c.cct, "resp": const(None), "freq_list": ask,
        "num_b": c.nb, "verbose": const(False), "resp_matrix": tab})
    b = lab.spec("current.currents", c.st, [c.vj, c.cct, ask, c.nbs, tab])

    def at(pt, i):
        return (0, .3, .32, .37, .39)[int(round(abs(i[0])))]
    lab.same("current at any frequency of " + c.text(), *(a + b), hints=[
        {"cct.vb_npts": 4, "fo": fo, ("cell", "cct.freq"): at}
        for fo in (0., .3, .6, .32, .02, .25)])


CHECKS = {"C12": c12, "C14": c14, "C15": c15}
