"""Measured IF power: hot/cold measurements, shot noise."""
import numpy as np
import scipy.constants as sc
from scipy import stats


def load(data, v_unit, vm, off, rs, vraw, iraw, vgap, vmax, npts):
    """power at npts bias voltages between 0 and vmax (normalised)"""
    v, p = data[:, 0] * v_unit, data[:, 1]
    good = ~(np.isnan(v) | np.isnan(p))
    v, p = v[good], p[good]
    order = np.argsort(v)
    v, p = v[order], p[order]
    new = np.ones(len(v), dtype=bool)
    new[1:] = v[1:] != v[:-1]
    v, p = v[new] * vm - off, p[new]
    if rs is not None:
        on = iraw != 0
        r = vraw[on] / iraw[on]
        r = np.interp(v, vraw[on], np.where(r < 0, 0, r))
        v = np.interp(v, vraw, iraw) * (r - rs)
    x = np.linspace(0, vmax / vgap, npts)
    return x, np.interp(x, v / vgap, p, left=0, right=0)


def smooth(y, half, sigma):
    """convolution with a Gaussian; mirror images beyond the ends"""
    k = np.arange(2 * half + 1) - half
    w = np.exp(-k ** 2 / (2 * sigma ** 2))
    s = np.concatenate((y[half:0:-1], y, y[-2:-half - 2:-1]))
    return np.convolve(s, w / w.sum(), mode="valid")


def curve(data, arg, sigma):
    """(voltage, power)"""
    x, p = load(data, *arg)
    if sigma is not None:
        p = smooth(p, sigma[0], sigma[1])
    return x, p


def shot_noise(x, p, vgap, vint, ranges):
    """line fitted to the shot noise, scaled to 5.8 K per mV"""
    used = np.zeros(len(x), dtype=bool)
    for low, high in ranges:
        used = used | (x * vgap > low) & (x * vgap < high)
    used = np.where(np.sum(used) < 5, x > 2., used)
    line = stats.linregress(x[used], p[used])
    corr = 5.8e3 * vgap / line[0]
    fit = (line[0] * x + line[1]) * corr
    noise = np.interp(vint / vgap, x, fit)
    return noise, corr, fit


def dcif(data, arg, sigma, vgap, vint, ranges):
    x, p = curve(data, arg, sigma)
    noise, corr, fit = shot_noise(x, p, vgap, vint, ranges)
    return np.vstack((x, p * corr)).T, {
        "if_noise": noise, "corr": corr,
        "if_fit": (noise > 0) & (noise < 50),
        "shot_slope": np.vstack((x, fit)).T,
        "vmax": x.max() * vgap}


def temperature(freq, t):
    """Callen-Welton; freq in GHz"""
    a = sc.h * freq * 1e9 / sc.k / 2
    return a / np.tanh(a / t)


def mixer(x, hot, cold, freq, t_hot, t_cold):
    """noise temperature and gain"""
    th, tc = temperature(freq, t_hot), temperature(freq, t_cold)
    y = hot / cold
    y = np.where(y <= 1 + 1e-10, 1 + 1e-10, y)
    return (th - tc * y) / (y - 1), (hot - cold) / (th - tc)


def best(x, tn, gain, vgap, vbest, way):
    if vbest is not None:
        return np.abs(x * vgap - vbest).argmin()
    if way == "gain":
        return gain.argmax()
    return tn.argmin()


def pumped(hot, cold, arg, sigma, vgap, vint, ranges, dcif, freq, t_hot,
           t_cold, vbest, way):
    x, hot = curve(hot, arg, sigma)
    x, cold = curve(cold, arg, sigma)
    if dcif is None:
        noise, corr, fit = shot_noise(x, (hot + cold) / 2, vgap, vint,
                                      ranges)
        good = (noise > 0) & (noise < 50)
        fit = np.vstack((x, fit)).T
    else:
        noise, corr, fit, good = dcif
    hot, cold = hot * corr, cold * corr
    tn, gain = mixer(x, hot, cold, freq, t_hot, t_cold)
    return np.vstack((x, hot, cold, tn, gain)).T, \
        best(x, tn, gain, vgap, vbest, way), {
            "if_noise": noise, "corr": corr, "if_fit": good,
            "shot_slope": fit, "vmax": x.max() * vgap}


def response(data, wide, t_hot, t_cold, limit):
    """noise temperature of a spectrum; powers in dBm"""
    f, hot, cold = data if wide else data.T
    y = 10 ** ((hot - cold) / 10)
    y = np.where(y <= 1, 1 + 1e-6, y)
    tn = (t_hot - t_cold * y) / (y - 1)
    tn = np.where((tn < 0) | (tn > limit), limit, tn)
    return np.vstack((f, tn, hot, cold))
