"""reference B-spline bases from scipy (float64)"""

import numpy as np
from scipy.interpolate import BSpline


def default_knots(n, k, xrange, interior=None):
    """the documented default: uniform (or given) interior knots, continued beyond both ends with the adjacent spacing"""
    x = np.linspace(xrange[0], xrange[1], n - k + 2) if interior is None else np.asarray(interior, float)
    lo, hi = x[1] - x[0], x[-1] - x[-2]
    return np.concatenate([x[0] - lo * np.arange(k - 1, 0, -1), x, x[-1] + hi * np.arange(1, k)])


def bspline(knots, k, x, xrange):
    """(N, *x.shape) matrix, zero outside xrange; k is the order (degree + 1)"""
    n = len(knots) - k
    x = np.asarray(x, float)
    out = np.zeros((n,) + x.shape)
    ok = (x >= xrange[0]) & (x <= xrange[1])
    xx = np.where(ok, x, 0.5 * (xrange[0] + xrange[1]))
    for i in range(n):
        b = BSpline.basis_element(knots[i : i + k + 1], extrapolate=False)
        out[i] = np.where(ok, np.nan_to_num(b(xx)), 0.0)
    return out


def bspline_clamped(knots, k, x):
    """the same for knots that end where the range ends; x inside the range, both ends included"""
    n = len(knots) - k
    x = np.asarray(x, float)
    return np.array([BSpline(knots, np.eye(n)[i], k - 1)(x) for i in range(n)])


def mspline(knots, k, x, xrange):
    b = bspline(knots, k, x, xrange)
    w = k / (knots[k:] - knots[:-k])
    return b * w.reshape((-1,) + (1,) * np.ndim(x))


_X, _W = np.polynomial.legendre.leggauss(6)


def quad_nodes(knots, xrange, per=4):
    """Gauss-Legendre nodes and weights on every knot interval inside xrange"""
    edges = np.unique(np.concatenate([[xrange[0], xrange[1]], [t for t in knots if xrange[0] < t < xrange[1]]]))
    edges = np.concatenate([np.linspace(a, b, per, endpoint=False) for a, b in zip(edges[:-1], edges[1:])] + [edges[-1:]])
    a, h = edges[:-1, None], np.diff(edges)[:, None]
    return (a + h * (_X + 1) / 2).ravel(), np.broadcast_to(h * _W / 2, (len(edges) - 1, len(_X))).ravel()
