"""Cleaning, smoothing and differentiating measured curves."""
import numpy as np


def keep_finite(x, y):
    good = ~(np.isnan(x) | np.isnan(y))
    return x[good], y[good]


def sort(x, y):
    order = np.argsort(x)
    return x[order], y[order]


def first_of_doubles(x):
    out = np.ones(len(x), dtype=bool)
    out[1:] = x[1:] != x[:-1]
    return out


def no_doubles(x, y):
    good = first_of_doubles(x)
    return x[good], y[good]


def clean(x, y):
    x, y = keep_finite(x, y)
    x, y = sort(x, y)
    return no_doubles(x, y)


def unsorted(x):
    return np.any(x[1:] < x[:-1])


def columns(x, y):
    return np.column_stack([x, y])


def keep_finite_rows(m):
    return m[~(np.isnan(m[:, 0]) | np.isnan(m[:, 1]))]


def sort_rows(m, col):
    return m[np.argsort(m[:, col])]


def no_double_rows(m, col):
    return m[first_of_doubles(m[:, col])]


def clean_rows(m):
    return no_double_rows(sort_rows(keep_finite_rows(m), 0), 0)


def split(m):
    return m[:, 0], m[:, 1]


def derivative(x, y):
    n = len(x)
    out = np.zeros(n)
    out[0] = (y[1] - y[0]) / (x[1] - x[0])
    out[1:-1] = (y[2:] - y[:-2]) / (x[2:] - x[:-2])
    out[n - 1] = (y[n - 1] - y[n - 2]) / (x[n - 1] - x[n - 2])
    return out


def straight(x, a):
    """derivative of a straight line"""
    return a + 0 * x


def line(x, a, b):
    return a * x + b


def level(x, a):
    return a + 0 * x


def wide(x, y, n, nozeros):
    """difference quotients over n steps, away from the ends"""
    out = (y[n:] - y[:-n]) / (x[n:] - x[:-n])
    if nozeros:
        out = np.where(out == 0, 1e-10, out)
    return out


def inner(out, n):
    return out[(n + 1) // 2:-((n - 1) // 2)]


def smooth(x, sigma, half):
    """Gaussian mean over 2 * half + 1 points, data mirrored at the ends"""
    n = len(x)
    total = 0.
    out = np.zeros(n)
    for k in range(-half, half + 1):
        w = np.exp(-(k / sigma) ** 2 / 2)
        total = total + w
        pos = np.abs(np.arange(n) + k)
        pos = (n - 1) - np.abs((n - 1) - pos)
        out = out + w * x[pos]
    return out / total


def unsorted_rows(m, col):
    return unsorted(m[:, col])
