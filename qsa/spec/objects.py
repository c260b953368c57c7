"""What the objects for measured data hold."""
import numpy as np
import scipy.constants as sc


def consistent(vgap, rn):
    return vgap / rn, sc.e * vgap / sc.h


def dc(v, i, meta, vleak, area, noise, dcif):
    rna = meta.rn * area * 1e-12
    out = {
        "voltage": v, "current": i,
        "vgap": meta.vgap, "igap": meta.igap, "fgap": meta.fgap,
        "rn": meta.rn, "rsg": meta.rsg, "q": meta.rsg / meta.rn,
        "rna": rna, "jc": meta.vgap / rna,
        "offset": (meta.offset[0], meta.offset[1]), "vint": meta.vint,
        "vleak": vleak,
        "ileak": np.interp(vleak / meta.vgap, v, i) * meta.igap}
    if dcif is not None:
        out["if_data"] = noise
        out["if_noise"] = dcif.if_noise
        out["corr"] = dcif.corr
        out["shot_slope"] = dcif.shot_slope
        out["if_fit"] = dcif.if_fit
    else:
        out["if_data"] = out["if_noise"] = out["corr"] = None
        out["shot_slope"] = out["if_fit"] = None
    return out


def meta(dcif):
    return {"if_noise": dcif.if_noise, "corr": dcif.corr,
            "shot_slope": dcif.shot_slope, "if_fit": dcif.if_fit,
            "vmax": dcif.vmax}


def pumped(v, i, rdyn, dc, vdc, idc, freq, result, best, dcif):
    out = {
        "voltage": v, "current": i, "rdyn": rdyn,
        "voltage_dc": vdc, "current_dc": idc,
        "vgap": dc.vgap, "igap": dc.igap, "fgap": dc.fgap, "rn": dc.rn,
        "offset": (dc.offset[0], dc.offset[1]), "vint": dc.vint,
        "freq": freq, "vph": freq * 1e9 / dc.fgap}
    if result is None:
        for k in ("if_hot", "if_cold", "tn", "gain", "idx_best", "if_noise",
                  "shot_slope", "tn_best", "g_db", "gain_best", "v_best",
                  "corr", "zj_if"):
            out[k] = None
        return out
    x, hot, cold, tn, gain = result.T
    near = np.abs(v - x[best]).argmin()
    slope = np.polyfit(v[near:near + 10], i[near:near + 10], 1)
    out.update({
        "if_hot": np.vstack((x, hot)).T, "if_cold": np.vstack((x, cold)).T,
        "tn": tn, "gain": gain, "idx_best": best,
        "if_noise": dcif.if_noise, "corr": dcif.corr,
        "shot_slope": dcif.shot_slope, "good_if_noise_fit": dcif.if_fit,
        "tn_best": tn[best], "gain_best": gain[best],
        "g_db": 10 * np.log10(gain[best]), "v_best": x[best],
        "zj_if": dc.rn / slope[0]})
    return out
