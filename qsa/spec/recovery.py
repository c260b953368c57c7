"""Embedding circuit recovered from a pumped I-V curve (RF voltage match)."""
import numpy as np
from scipy import special


class Curve(object):
    """response function"""

    def __init__(self, v, i, k):
        self.v, self.i, self.k = v, i, k

    def idc(self, x):
        return np.interp(x, self.v, self.i)

    def ikk(self, x):
        return np.interp(x, self.v, self.k)


def make(v, i, k):
    return Curve(v, i, k)


def photon_step(v, i, vph, low, high):
    """points within the fit range of the first photon step"""
    used = (v >= 1 - vph + vph * low) & (v <= 1 - vph + vph * high)
    return v[used], i[used]


def pumped(resp, v, vph, alpha, num_b):
    out = 0.
    for n in range(-num_b, num_b + 1):
        out = out + special.jv(n, alpha) ** 2 * resp.idc(v + n * vph)
    return out


def drive(resp, v, i, vph, alpha_max, num_b):
    """drive level at each voltage"""
    dark = resp.idc(v)
    full = pumped(resp, v, vph, alpha_max, num_b)
    a = (i - dark) / (full - dark) * alpha_max
    a = np.where(a < 0, 0, a)
    step = alpha_max / 4
    for _ in range(15):
        err = pumped(resp, v, vph, a, num_b) - i
        a = np.where(err > 0, a - step, np.where(err < 0, a + step, a))
        a = np.where(a < 0, 0, a)
        step = step / 2
    return a


def drives(v, i, resp, freq, fgap, low, high, alpha_max, num_b):
    vph = freq * 1e9 / fgap
    v, i = photon_step(v, i, vph, low, high)
    a = drive(resp, v, i, vph, alpha_max, num_b)
    mid = np.abs(v - (1 - vph / 2)).argmin()
    return {"alpha": a[mid]}


def current(resp, v, vph, alpha, num_b):
    """tunnelling current at the frequency of the local oscillator"""
    out = 0j
    for n in range(-num_b, num_b + 1):
        low, high = special.jv(n - 1, alpha), special.jv(n + 1, alpha)
        x = v + n * vph
        out = out + special.jv(n, alpha) * (
            (low + high) * resp.idc(x) + 1j * (low - high) * resp.ikk(x))
    return out


def misfit(vw, zw, zs):
    """equation 26 of Withington et al."""
    x = np.abs(zw / (zs + zw))
    return (np.sum(np.abs(vw) ** 2) - np.sum(np.abs(vw) * x) ** 2 /
            np.sum(x ** 2)) / len(vw)


def source(vw, zw, zs):
    """equation 27"""
    x = np.abs(zw / (zs + zw))
    return np.sum(np.abs(vw) * x) / np.sum(x ** 2)


def recover(v, i, resp, freq, fgap, low, high, alpha_max, num_b, remb, xemb,
            zemb):
    vph = freq * 1e9 / fgap
    v, i = photon_step(v, i, vph, low, high)
    alpha = drive(resp, v, i, vph, alpha_max, num_b)
    vw = alpha * vph
    zw = vw / current(resp, v, vph, alpha, num_b)
    mid = np.abs(v - (1 - vph / 2)).argmin()
    re = np.linspace(remb[0], remb[1], 101)
    im = np.linspace(xemb[0], xemb[1], 201)
    surf = np.zeros((101, 201))
    for k in range(101):
        for n in range(201):
            surf[k, n] = misfit(vw, zw, re[k] + 1j * im[n])
    best = surf.argmin()
    zt = re[best // 201] + 1j * im[best % 201] if zemb is None else zemb
    return {"zt": zt, "vt": source(vw, zw, zt), "zw": zw[mid],
            "alpha": alpha[mid], "fit_good": surf.min() <= 7e-7,
            "err_surf": surf}


def rest(x):
    return 1 - x
