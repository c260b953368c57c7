"""The curves each plot shows: (label, x, y), axes in the units of their
labels."""
import numpy as np
from qmix.exp.parameters import params
from qmix.mathfn.filters import gauss_conv


def dc_curve(d):
    mv, ua = d.vgap * 1e3, d.vgap / d.rn * 1e6
    v, i = d.voltage * mv, d.current * ua
    near = (d.vleak - .2e-3 < v / 1e3) & (v / 1e3 < d.vleak + .2e-3)
    line = np.polyfit(v[near], i[near], 1)
    return [("DC I-V", v, i),
            (None, mv, np.interp([1.], d.voltage, d.current) * ua),
            (None, d.vleak * 1e3,
             np.interp(d.vleak / d.vgap, d.voltage, d.current) * ua),
            (None, v, (d.voltage * d.vgap - d.vint) / d.rn * 1e6),
            (None, v, np.polyval(line, v))]


def origin(d):
    v, i = d.voltage * d.vgap * 1e3, d.current * d.vgap / d.rn * 1e6
    near = (v > -.2) & (v < .2)
    return [(None, v[near], i[near])]


def if_noise(d):
    v = d.voltage * d.vgap * 1e3
    return [("I-V curve", v, d.current * d.igap * 1e6),
            ("Normal-state", v, (d.voltage * d.vgap - d.vint) / d.rn * 1e6),
            ("IF Power", d.if_data[:, 0] * d.vgap * 1e3, d.if_data[:, 1]),
            ("5.8 K/mV", d.shot_slope[:, 0] * d.vgap * 1e3,
             d.shot_slope[:, 1]),
            (None, d.vint * 1e3, d.if_noise)]


def both(p, dc_label="Unpumped"):
    mv, ua = p.vgap * 1e3, p.igap * 1e6
    used = p.current != 0
    return [(dc_label, p.voltage_dc * mv, p.current_dc * ua),
            ("Pumped", p.voltage[used] * mv, p.current[used] * ua)]


def iv(p):
    return both(p)


def power(p):
    v = p.if_hot[:, 0] * p.vgap * 1e3
    out = [("Hot", v, p.if_hot[:, 1]), ("Cold", v, p.if_cold[:, 1])]
    if p.dciv.if_data is not None:
        out.append(("No LO", p.dciv.if_data[:, 0] * p.vgap * 1e3,
                    p.dciv.if_data[:, 1]))
    return out


def ivif(p):
    v = p.if_hot[:, 0] * p.vgap * 1e3
    h, c = p.if_hot[:, 1], p.if_cold[:, 1]
    out = both(p)
    out.append(("Hot", v[h != 0], h[h != 0]))
    out.append(("Cold", v[c != 0], c[c != 0]))
    return out


def noise(p):
    used = p.if_hot[:, 1] != 0
    v = p.if_hot[used, 0] * p.vgap * 1e3
    return [("Hot IF", v, gauss_conv(p.if_hot[used, 1], 5)),
            ("Cold IF", v, gauss_conv(p.if_cold[used, 1], 5)),
            ("Noise Temp.", v, p.tn[used]),
            (None, p.if_hot[p.idx_best, 0] * p.vgap * 1e3, p.tn_best)]


def yfactor(p):
    v = p.if_hot[:, 0] * p.vgap * 1e3
    return [("Y-factor", v, gauss_conv(p.if_hot[:, 1], 5)
             / gauss_conv(p.if_cold[:, 1], 5)),
            ("Noise Temp.", v, p.tn), (None, v[p.idx_best], p.tn_best)]


def gain_noise(p):
    v = p.if_hot[:, 0] * p.vgap * 1e3
    return [("Gain", v, p.gain),
            (None, v[p.idx_best], p.gain[p.idx_best]),
            ("Noise Temp.", v, p.tn), (None, v[p.idx_best], p.tn_best)]


def gain(p):
    return [(None, p.if_hot[:, 0] * p.vgap * 1e3, p.gain * 100)]


def simulated(p, vb, current, low, high):
    mv, ua = p.vgap * 1e3, p.igap * 1e6
    ends = np.array([1 - p.vph + p.vph * low, 1 - p.vph + p.vph * high])
    sim = current[0].real * ua
    out = both(p)
    out.append(("Simulated", vb * mv, sim))
    out.append(("Fit Interval", ends * mv, np.interp(ends * mv, vb * mv,
                                                     sim)))
    return out


def circuit(p):
    return p.vph, p.zt, p.vt


def of_circuit(c):
    return c.freq[1], c.zt[1, 1], c.vt[1, 1]


def tones(p):
    return [0, p.vph]


def other_end(cut):
    return 1 - cut


def default(name):
    return params[name]


def surface(p, r, x):
    """horizontal and vertical axis and colours, and the marked point"""
    real = np.linspace(r[0], r[1], 101) * p.rn
    imag = np.linspace(x[0], x[1], 201) * p.rn
    xx = np.zeros((201, 101)) + real
    yy = (np.zeros((101, 201)) + imag).T
    return xx, yy, np.log10(p.err_surf).T


def turned(image):
    return image[0].T, image[1].T, image[2].T


def minimum(p):
    return (p.zt * p.rn).real, (p.zt * p.rn).imag


def response(r):
    return [(None, r.voltage, r.current),
            (None, r.voltage_kk, r.current_kk)]


def interpolation(r):
    out = response(r)
    out.append((None, r.voltage, r.idc(r.voltage)))
    out.append((None, r.voltage_kk, r.ikk(r.voltage_kk)))
    return out


def limits(vmax):
    return 0, vmax


def current_at(p, vmax):
    return 0, np.interp(vmax, p.voltage_dc * p.vgap * 1e3,
                        p.current_dc * p.igap * 1e6)


def overall(dc, data):
    mv, ua = dc.vgap * 1e3, dc.igap * 1e6
    out = [(None, dc.voltage * mv, dc.current * ua)]
    for p in data:
        out.append((None, p.voltage * mv, p.current * ua))
    f = [p.freq for p in data]
    out.append((None, f, [p.zj_if for p in data]))
    out.append((None, f, [p.tn_best for p in data]))
    out.append((None, f, [p.g_db for p in data]))
    out.append((None, f, [p.alpha for p in data]))
    zj = np.array([p.zw for p in data]) * dc.rn
    out.append((None, f, zj.real))
    out.append((None, f, zj.imag))
    noisy = [p for p in data if p.good_if_noise_fit]
    out.append((None, [p.freq for p in noisy],
                [p.if_noise for p in noisy]))
    good = [p for p in data if p.fit_good]
    if len(good) > 0:
        z = np.array([p.zt for p in good]) * dc.rn
        fg = [p.freq for p in good]
        out.append(("Real", fg, z.real))
        out.append(("Imaginary", fg, z.imag))
        out.append((None, fg, [p.vt * dc.vgap * 1e3 for p in good]))
    z = np.array([p.zt for p in data]) * dc.rn
    out.append(("Real", f, z.real))
    out.append(("Imaginary", f, z.imag))
    return out
