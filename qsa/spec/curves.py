"""Measured I-V curves (volts and amperes unless said otherwise)."""
import numpy as np
import scipy.constants as sc
from scipy.signal import savgol_filter


def single_pass(v):
    """rows used of a sweep: everything if it runs from one end to the
    other; else the two parts that lead away from the first voltage"""
    n = len(v)
    low, high = v.argmin(), v.argmax()
    first, second = np.minimum(low, high), np.maximum(low, high)
    row = np.arange(n)
    gap = np.abs(v[first:second + 1] - v[0])
    again = first + gap.argmin()
    part = (row <= first) | ((row >= again) & (row <= second))
    whole = (first == 0) & (second == n - 1)
    return part | whole


def load(data, v_unit, i_unit):
    """cleaned, sorted voltage and current"""
    v, i = data[:, 0] * v_unit, data[:, 1] * i_unit
    good = ~(np.isnan(v) | np.isnan(i))
    v, i = v[good], i[good]
    used = single_pass(v)
    v, i = v[used], i[used]
    order = np.argsort(v)
    v, i = v[order], i[order]
    new = np.ones(len(v), dtype=bool)
    new[1:] = v[1:] != v[:-1]
    return v[new], i[new]


def turn(x, y, angle):
    """anticlockwise"""
    z = (x + 1j * y) * np.exp(1j * angle)
    return z.real, z.imag


def smooth(v, i, window, order, angle, npts):
    """Savitzky-Golay filter in a rotated frame"""
    vmax, imax = v.max(), i.max()
    x, y = turn(v / vmax, i / imax, -angle)
    grid = np.linspace(x.min(), x.max(), npts)
    y = savgol_filter(np.interp(grid, x, y), window, order)
    x, y = turn(grid, y, angle)
    grid = np.linspace(x.min(), x.max(), npts)
    return grid * vmax, np.interp(grid, x, y) * imax


def junction(v, i, rs):
    """remove the voltage across a series resistance; points without current
    are not used, those of negative resistance count as short circuits"""
    good = i != 0
    v, i = v[good], i[good]
    return np.where(v / i < 0, 0, v) - i * rs, i


def prepare(data, v_unit, i_unit, vm, im, voff, ioff, filt, rs):
    """(voltage and current before, after series resistance correction)"""
    v, i = load(data, v_unit, i_unit)
    v, i = v * vm - voff, i * im - ioff
    if filt is not None:
        v, i = smooth(v, i, filt[0], filt[1], filt[2], filt[3])
    if rs is None:
        return v, i, v, i
    vj, ij = junction(v, i, rs)
    return v, i, vj, ij


def line(v, i, low, high):
    """slope and intercept between two voltages"""
    p = np.polyfit(v[(v > low) & (v < high)], i[(v > low) & (v < high)], 1)
    return p[0], p[1]


def dc(data, v_unit, i_unit, vm, im, voff, ioff, filt, rs, vgap, vrn, vrsg,
       vmax, npts):
    vraw, iraw, v, i = prepare(data, v_unit, i_unit, vm, im, voff, ioff,
                               filt, rs)
    slope, cut = line(v, i, vrn[0], vrn[1])
    leak, _ = line(v, i, vrsg - 1e-4, vrsg + 1e-4)
    rn = 1 / slope
    vx = np.linspace(-vmax, vmax, npts)
    cx = np.interp(vx, v, i) * rn / vgap
    vx = vx / vgap
    return vx, cx, {
        "vraw": vraw, "iraw": iraw, "vnorm": vx, "inorm": cx,
        "vgap": vgap, "igap": vgap / rn, "fgap": vgap * sc.e / sc.h,
        "rn": rn, "rsg": 1 / leak, "offset": (voff, ioff),
        "vint": -cut * rn, "rseries": rs}


def pumped(data, v_unit, i_unit, vm, im, voff, ioff, filt, rs, vgap, igap,
           vmax, npts):
    _, _, v, i = prepare(data, v_unit, i_unit, vm, im, voff, ioff, filt, rs)
    vx = np.linspace(-vmax, vmax, npts)
    return vx / vgap, np.interp(vx, v, i, left=0, right=0) / igap


def steepest(v, i):
    """voltage above 2 mV where the smoothed derivative is largest"""
    above = v > 2e-3
    x, y = v[above], i[above]
    n = len(x)
    rise = np.zeros(n)
    rise[0] = (y[1] - y[0]) / (x[1] - x[0])
    rise[1:-1] = (y[2:] - y[:-2]) / (x[2:] - x[:-2])
    rise[n - 1] = (y[n - 1] - y[n - 2]) / (x[n - 1] - x[n - 2])
    sigma = 0.2e-3 / (v[1] - v[0])
    half = int(3 * sigma + 1e-5)
    weight = np.exp(-(np.arange(-half, half + 1) / sigma) ** 2 / 2)
    mirrored = np.concatenate([rise[half:0:-1], rise, rise[-2:-half - 2:-1]])
    return x[np.convolve(mirrored, weight / weight.sum(), "valid").argmax()]


def gap(v, i, vrn):
    """half way up to where the rise meets the normal-state line"""
    normal, cut = line(v, i, vrn[0], vrn[1])
    top = steepest(v, i)
    slope, low = line(v, i, top - 1e-5, top + 1e-5)
    corner = (low - cut) / (normal - slope)
    return ((slope * corner + low) / 2 - low) / slope


def found_gap(data, v_unit, i_unit, vm, im, voff, ioff, filt, rs, vrn):
    _, _, v, i = prepare(data, v_unit, i_unit, vm, im, voff, ioff, filt, rs)
    return gap(v, i, vrn)


def near_zero(data, v_unit, i_unit, vm, im, low, high):
    v, i = load(data, v_unit, i_unit)
    v, i = v * vm, i * im
    part = (v >= low) & (v <= high)
    return v[part], i[part]


def imbalance(data, v_unit, i_unit, vm, im, low, high, voff, ioff):
    """how far from I(-V) = -I(V) is the curve with these offsets removed"""
    v, i = near_zero(data, v_unit, i_unit, vm, im, low, high)
    v, i = v - voff, i - ioff
    grid = np.linspace(low / 2, high / 2, 101)
    odd = np.interp(grid, v, i) + np.interp(-grid, v, i)
    return np.abs(odd).sum()


def mean_current(data, v_unit, i_unit, vm, im, low, high):
    return np.mean(near_zero(data, v_unit, i_unit, vm, im, low, high)[1])


def dc_auto(data, v_unit, i_unit, vm, im, low, high, found, given, filt, rs,
            vgap, vrn, vrsg, vmax, npts):
    """offsets found for sweeps across the range, else those given"""
    v, i = load(data, v_unit, i_unit)
    both = (v.min() * vm < low) & (high < v.max() * vm)
    voff = np.where(both, found[0], given[0])
    ioff = np.where(both, found[1], given[1])
    return dc(data, v_unit, i_unit, vm, im, voff, ioff, filt, rs, vgap, vrn,
              vrsg, vmax, npts)
