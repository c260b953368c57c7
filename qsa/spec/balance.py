"""Harmonic balance: Thevenin circuits against the tunnelling current,
Newton's method with a numerical Jacobian (Kittara 2002; Garrett 2018)."""
import numpy as np

from qmix.qtcurrent import qtcurrent

VT_MIN = 1e-10
STEP = 1e-3


def sources(cct):
    return np.where(np.abs(cct.vt) < VT_MIN, VT_MIN, cct.vt)


def first_guess(cct, ratio):
    vt = sources(cct)
    out = np.zeros((cct.num_f + 1, cct.num_p + 1, cct.vb_npts),
                   dtype=complex)
    for f in range(1, cct.num_f + 1):
        for p in range(1, cct.num_p + 1):
            out[f, p] = vt[f, p] * ratio / (ratio + cct.zt[f, p]) * \
                np.ones(cct.vb_npts)
    return out


def residual(vj, cct, resp, num_b):
    """mismatch of every signal, in rows over (tone, harmonic)"""
    vt = sources(cct)
    freqs = []
    for f in range(1, cct.num_f + 1):
        for p in range(1, cct.num_p + 1):
            freqs.append(p * cct.freq[f])
    current = qtcurrent(vj, cct, resp, freqs, num_b, verbose=False)
    out = np.zeros((cct.num_f * cct.num_p, cct.vb_npts), dtype=complex)
    k = 0
    for f in range(1, cct.num_f + 1):
        for p in range(1, cct.num_p + 1):
            out[k] = vt[f, p] - cct.zt[f, p] * current[k] - vj[f, p]
            k = k + 1
    return out


def relative(err, vj, cct):
    out = np.zeros((cct.num_f * cct.num_p, cct.vb_npts))
    k = 0
    for f in range(1, cct.num_f + 1):
        for p in range(1, cct.num_p + 1):
            out[k] = np.abs(err[k]) / np.abs(vj[f, p])
            k = k + 1
    return out


def largest(rel):
    out = 0.
    for k in range(len(rel)):
        out = np.maximum(np.max(rel[k]), out)
    return out


def mask(rel, cct, stop):
    out = np.ones(cct.vb_npts, dtype=bool)
    for k in range(len(rel)):
        out = out & (rel[k] < stop)
    return out


def step(vj, err, cct, resp, num_b, damp):
    """vj after one damped Newton step"""
    n = cct.num_f * cct.num_p
    jac = np.zeros((cct.vb_npts, 2 * n, 2 * n))
    col = 0
    for f in range(1, cct.num_f + 1):
        for p in range(1, cct.num_p + 1):
            for unit in (1, 1j):
                moved = vj.copy()
                moved[f, p] = moved[f, p] + unit * STEP
                e2 = residual(moved, cct, resp, num_b)
                for k in range(n):
                    diff = (e2[k] - err[k]) / STEP
                    jac[:, 2 * k, col] = np.real(diff)
                    jac[:, 2 * k + 1, col] = np.imag(diff)
                col = col + 1
    inv = np.linalg.inv(jac)
    out = vj.copy()
    row = 0
    for f in range(1, cct.num_f + 1):
        for p in range(1, cct.num_p + 1):
            for unit in (1, 1j):
                corr = np.zeros(cct.vb_npts)
                for k in range(n):
                    corr = corr + inv[:, row, 2 * k] * np.real(err[k]) + \
                        inv[:, row, 2 * k + 1] * np.imag(err[k])
                out[f, p] = out[f, p] - damp * unit * corr
                row = row + 1
    return out


def solve(vj, cct, resp, num_b, max_it, stop, damp):
    """(voltages, iterations, converged, mask)"""
    count = 0
    err = residual(vj, cct, resp, num_b)
    rel = relative(err, vj, cct)
    done = largest(rel) <= stop
    good = mask(rel, cct, stop)
    for n in range(max_it):
        if not done:
            vj = step(vj, err, cct, resp, num_b, damp)
            err = residual(vj, cct, resp, num_b)
            rel = relative(err, vj, cct)
            done = largest(rel) <= stop
            good = mask(rel, cct, stop)
            count = count + 1
    return vj, count, done, good


def balance(cct, resp, num_b, max_it, stop, damp, vj0, mode):
    zero = True
    for f in range(cct.num_f + 1):
        for p in range(cct.num_p + 1):
            zero = zero & (cct.zt[f, p] == 0)
    vj, count, done, good = solve(vj0, cct, resp, num_b, max_it, stop, damp)
    short = cct.vt[:, :, None] * np.ones(cct.vb_npts, dtype=complex)
    vj = np.where(zero, short, vj)
    if mode == "x":
        return vj, np.where(zero, 0, count), zero | done
    if mode == "m":
        return vj, zero | good
    return vj


def exceeded(vj, cct, resp, num_b, stop):
    """some signal misses the target"""
    out = False
    rel = relative(residual(vj, cct, resp, num_b), vj, cct)
    for k in range(len(rel)):
        out = out | (np.max(rel[k]) >= stop)
    return out
