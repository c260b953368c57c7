"""Kramers-Kronig transform and response functions."""
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline
from scipy.signal import hilbert

from qmix.mathfn.filters import gauss_conv
from qmix.mathfn.ivcurve_models import (exponential, perfect, perfect_kk,
                                        polynomial)

GRID = np.linspace(0, 35, 7001)


def kk(v, i, n):
    """transform of the difference from the ohmic line, padded n times"""
    return -np.imag(hilbert(i - v, N=len(v) * n))[:len(v)]


def mirrored(v, i):
    return (np.concatenate((-v[:0:-1], v)), np.concatenate((-i[:0:-1], i)))


def curve(v, i, n):
    """attributes of the response function of a mirrored curve"""
    return {"voltage": v, "current": i, "voltage_kk": v,
            "current_kk": kk(v, i, n)}


def plain(v, i, n):
    v, i = mirrored(v, i)
    return curve(v, i, n)


def smeared(v, i, n, smear):
    v, i = mirrored(v, i)
    i = v + gauss_conv(i - v, sigma=smear / (v[1] - v[0]))
    return curve(v, i, n)


def from_data(v, i, n, limit):
    """resampled data, continued with slope one above the limit"""
    used = (v > 0) & (v < limit)
    v, i = v[used], i[used]
    rest = i[-1] - v[-1]
    i = np.interp(GRID, np.append(v, 50.), np.append(i, 50. + rest))
    return plain(np.copy(GRID), i, n)


def from_polynomial(order, n):
    return plain(GRID, polynomial(np.copy(GRID), order), n)


def from_exponential(vgap, rn, rsg, agap, n):
    return plain(GRID, exponential(np.copy(GRID), vgap, rn, rsg, agap), n)


def from_perfect():
    v, i = mirrored(GRID, perfect(np.copy(GRID)))
    return {"voltage": v, "current": i, "voltage_kk": v,
            "current_kk": perfect_kk(v)}


def from_perfect_smeared(n, smear):
    return smeared(GRID, perfect(np.copy(GRID)), n, smear)


def spline(x, y, idx, order, v):
    return InterpolatedUnivariateSpline(x[idx], y[idx], k=order)(v)


def slope(x, y, idx, order, v):
    return InterpolatedUnivariateSpline(x[idx], y[idx],
                                        k=order).derivative()(v)


def resp(r, v):
    return r.ikk(v) + 1j * r.idc(v)


def conj(r, v):
    return r.ikk(v) - 1j * r.idc(v)


def swap(r, v):
    return r.idc(v) + 1j * r.ikk(v)


def smeared_with_impulse(n, smear):
    """known finding: an impulse at the gap is added before smearing"""
    v = np.copy(GRID)
    impulse = np.zeros(len(v))
    impulse[np.abs(v - 1.).argmin()] = 1.
    i = perfect(np.copy(GRID)) + gauss_conv(impulse,
                                            sigma=smear / (v[1] - v[0]))
    return smeared(v, i, n, smear)
