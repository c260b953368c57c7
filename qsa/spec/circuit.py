"""Embedding circuit: normalisations and unit conversions."""
import numpy as np
import scipy.constants as sc


def power_w(cct, f, p):
    """available power of a Thevenin source, in watts"""
    v = cct.vt[f, p] * cct.vgap
    r = np.real(cct.zt[f, p]) * cct.rn
    if r == 0:
        return 0.        # no resistance, no available power
    return np.abs(v) ** 2 / (8 * r)


def available_linear(cct, f, p, unit):
    return power_w(cct, f, p) / unit


def available_db(cct, f, p, ref):
    return 10 * np.log10(power_w(cct, f, p) / ref)


def set_power(cct, watts, f, p):
    """circuit arrays after the available power was set"""
    vt = np.copy(cct.vt)
    vt[f, p] = np.sqrt(8 * watts * np.real(cct.zt[f, p]) * cct.rn) / cct.vgap
    return {"vt": vt, "freq": cct.freq, "zt": cct.zt, "vb": cct.vb,
            "vgap": cct.vgap, "fgap": cct.fgap, "rn": cct.rn,
            "igap": cct.igap}


def set_power_linear(cct, power, f, p, unit):
    return set_power(cct, power * unit, f, p)


def set_power_db(cct, power, f, p, ref):
    return set_power(cct, 10 ** (power / 10) * ref, f, p)


def set_freq(cct, value, f, unit):
    """``unit``: what one unit is in Hz"""
    freq = np.copy(cct.freq)
    freq[f] = value * unit / cct.fgap
    return {"vt": cct.vt, "freq": freq, "zt": cct.zt, "vb": cct.vb,
            "vgap": cct.vgap, "fgap": cct.fgap, "rn": cct.rn,
            "igap": cct.igap}


def set_photon(cct, value, f, unit):
    """``unit``: what one unit is in volts"""
    freq = np.copy(cct.freq)
    freq[f] = value * unit / cct.vgap
    return {"vt": cct.vt, "freq": freq, "zt": cct.zt, "vb": cct.vb,
            "vgap": cct.vgap, "fgap": cct.fgap, "rn": cct.rn,
            "igap": cct.igap}


def set_norm(cct, value, f):
    freq = np.copy(cct.freq)
    freq[f] = value
    return {"vt": cct.vt, "freq": freq, "zt": cct.zt, "vb": cct.vb}


def set_alpha(cct, alpha, f, p, zj):
    """Thevenin voltage that gives alpha * vph across zj"""
    vt = np.copy(cct.vt)
    vj = alpha * cct.freq[f]
    vt[f, p] = vj * (cct.zt[f, p] + zj) / zj
    return {"vt": vt, "freq": cct.freq, "zt": cct.zt, "vb": cct.vb,
            "vgap": cct.vgap, "fgap": cct.fgap, "rn": cct.rn,
            "igap": cct.igap}


def empty_vj(cct):
    return np.zeros((cct.num_f + 1, cct.num_p + 1, cct.vb_npts),
                    dtype=complex)


def photon(cct):
    return cct.freq


def built_vgap(num_f, num_p, vb_min, vb_max, vb_npts, vgap, rn):
    return {"vgap": vgap, "fgap": vgap * sc.e / sc.h, "rn": rn,
            "igap": vgap / rn, "num_f": num_f, "num_p": num_p,
            "num_n": num_f * num_p, "vb_npts": vb_npts,
            "vb": vb_min + np.arange(vb_npts) * (vb_max - vb_min)
            / (vb_npts - 1),
            "freq": np.zeros(num_f + 1),
            "vt": np.zeros((num_f + 1, num_p + 1), dtype=complex),
            "zt": np.zeros((num_f + 1, num_p + 1), dtype=complex)}


def built_fgap(num_f, num_p, vb_min, vb_max, vb_npts, fgap, rn):
    return built_vgap(num_f, num_p, vb_min, vb_max, vb_npts,
                      fgap * sc.h / sc.e, rn)


def built_both(vgap, fgap, rn):
    return {"vgap": vgap, "fgap": fgap, "rn": rn, "igap": vgap / rn}


def built_no_rn(vgap):
    return {"vgap": vgap, "fgap": vgap * sc.e / sc.h, "rn": None,
            "igap": None}


def built_plain(rn):
    return {"vgap": None, "fgap": None, "rn": rn, "igap": None}
