"""Multi-tone spectral domain analysis, written down from Kittara (2002)."""
import itertools

import numpy as np
from scipy.special import jv


def phase_factors(vj, freq, num_f, num_p, num_b):
    """C_k of every tone, as rows of k = -top..top: the harmonics'
    Jacobi-Anger coefficients convolved with each other, truncated at num_b"""
    out = [None]
    top = max(num_b)
    for f in range(1, num_f + 1):
        last = []
        for k in range(-top, top + 1):
            last.append(jacobi(vj, freq, f, 1, k, num_b[f - 1]))
        for p in range(2, num_p + 1):
            row = []
            for k in range(-top, top + 1):
                total = 0
                for n in range(-top, top + 1):
                    if -top <= k - p * n <= top:
                        total = total + last[k - p * n + top] * jacobi(
                            vj, freq, f, p, n, num_b[f - 1])
                row.append(total)
            last = row
        out.append(last)
    return out


def jacobi(vj, freq, f, p, n, limit):
    if abs(n) > limit:
        return 0
    alpha = np.abs(vj[f, p]) / (p * freq[f])
    m = abs(n)
    out = jv(m, alpha) * np.exp(-1j * m * np.angle(vj[f, p]))
    if n < 0:
        out = (-1) ** m * np.conj(out)
    return out


def factor_array(vj, freq, num_f, num_p, num_b):
    c = phase_factors(vj, freq, num_f, num_p, num_b)
    top = max(num_b)
    out = np.zeros((num_f + 1, 2 * top + 1, vj.shape[2]), dtype=complex)
    for f in range(1, num_f + 1):
        for k in range(-top, top + 1):
            out[f, k] = c[f][k + top]
    return out


def tunnelling(vj, cct, freq_out, num_b, table):
    """current at one frequency; ``table[k, l, ..]`` is the response at
    vb + k f_1 + l f_2 + .. (negative indices from the end)"""
    num_f, num_p, freq = cct.num_f, cct.num_p, cct.freq
    c = phase_factors(vj, freq, num_f, num_p, num_b)
    total = np.zeros(cct.vb_npts, dtype=complex)
    orders = [range(-num_p, num_p + 1)] * num_f
    for abcd in itertools.product(*orders):
        f = 0
        for t in range(num_f):
            f = f + abcd[t] * freq[t + 1]
        if round(f, 4) == round(freq_out, 4):
            total = total + component(c, abcd, num_b, table, num_f)
    return total


def component(c, abcd, num_b, table, num_f):
    plus = products(c, abcd, num_b, table, 1, num_f)
    if not any(abcd):
        return np.imag(plus)
    minus = products(c, abcd, num_b, table, -1, num_f)
    return np.imag(plus) + np.imag(minus) \
        - 1j * (np.real(plus) - np.real(minus))


def products(c, abcd, num_b, table, sign, num_f):
    out = 0
    top = max(num_b)
    for ks in itertools.product(*[range(-n, n + 1) for n in num_b]):
        x = table[ks]
        for t in range(num_f):
            other = ks[t] + sign * abcd[t]
            if abs(other) > num_b[t]:
                x = None
                break
            x = x * c[t + 1][ks[t] + top] * np.conj(c[t + 1][other + top])
        if x is not None:
            out = out + x
    return out


def currents(vj, cct, freqs, num_b, table):
    out = np.zeros((len(freqs), cct.vb_npts), dtype=complex)
    for n in range(len(freqs)):
        out[n] = tunnelling(vj, cct, freqs[n], num_b, table)
    return out


def current_dc(vj, cct, freqs, num_b, table):
    return np.real(tunnelling(vj, cct, freqs[0], num_b, table))


def current_ac(vj, cct, freqs, num_b, table):
    return tunnelling(vj, cct, freqs[0], num_b, table)


def response_table(cct, resp, num_b):
    shape = tuple([2 * n + 1 for n in num_b])
    out = np.zeros(shape + (cct.vb_npts,), dtype=complex)
    for ks in itertools.product(*[range(-n, n + 1) for n in num_b]):
        v = cct.vb
        for t in range(cct.num_f):
            v = v + ks[t] * cct.freq[t + 1]
        out[ks] = resp(v)
    return out
