"""DC I-V curve models (normalized voltage and current)."""
import numpy as np


def step(x):
    """smooth step from 0 to 1"""
    return 1 / (1 + np.exp(-x))


def perfect(v):
    return np.where(np.abs(v) < 1, 0. * v,
                    np.where(np.abs(v) == 1, 0.5 * v, v))


def perfect_kk(v, limit):
    return np.where(np.abs(v) == 1, limit,
                    -(2 + v * np.log(np.abs((v - 1) / (v + 1)))) / np.pi)


def polynomial(v, order):
    return v ** (2 * order + 1) / (1 + v ** (2 * order))


def exponential_original(v, vgap, rn, rsg, a):
    x = v * vgap
    below, above = step(-a * (x + vgap)), step(a * (x - vgap))
    i = x / rsg * (1 - below) + x / rsg * (1 - above) \
        + x / rn * below + x / rn * above
    return i * rn / vgap


def transition(x, vgap, rn, rsg, a):
    """sub-gap resistance between the gap voltages, normal resistance
    outside"""
    below, above = step(-a * (x + vgap)), step(a * (x - vgap))
    inside = ((1 - below) - below + (1 - above) - above) / 2
    return x / rsg * inside + x / rn * (below + above)


def exponential_fixed(v, vgap, rn, rsg, a):
    return transition(v * vgap, vgap, rn, rsg, a) * rn / vgap


def expanded(v, vgap, rn, rsg, a, a0, ileak, vnot, inot, anot, ioff):
    x = v * vgap
    below, above = step(-a * (x + vgap)), step(a * (x - vgap))
    leak = ileak * (2 * step(a0 * x) - 1 - above + below)
    notch = inot * (step(-anot * (x - vnot)) + step(-anot * (x + vnot)) - 1)
    offset = ioff * ((1 - above) + below - 1)
    i = leak + transition(x, vgap, rn, rsg, a) + notch + offset
    return i * rn / vgap
