"""reference for one-dimensional spline population models"""

import numpy as np
from harness import arr, close, require, tol
from spline_ref import bspline, default_knots, quad_nodes


class Curve:
    """kind: B | LogX | LogY | LogXLogY on [lo, hi] with n basis functions of order k"""

    def __init__(self, kind, n, k, lo, hi):
        self.kind, self.n, self.k, self.lo, self.hi = kind, n, k, float(lo), float(hi)
        self.logx = kind in ("LogX", "LogXLogY")
        self.logy = kind in ("LogY", "LogXLogY")
        self.f = np.log if self.logx else (lambda v: np.asarray(v, float))
        self.tr = (float(self.f(self.lo)), float(self.f(self.hi)))
        self.t = default_knots(n, k, self.tr)

    def spline(self, x, cs):
        """linear combination of the basis functions; x must lie inside the range"""
        return np.einsum("i...,i->...", bspline(self.t, self.k, self.f(x), (self.tr[0] - 1e-9, self.tr[1] + 1e-9)), cs)

    def g(self, x, cs):
        x = np.asarray(x, float)
        ok = (x >= self.lo) & (x <= self.hi)
        v = self.spline(np.where(ok, x, 0.5 * (self.lo + self.hi) if not self.logx else np.sqrt(self.lo * self.hi)), cs)
        return np.where(ok, np.exp(v) if self.logy else v, 0.0)

    def integral(self, cs):
        y, w = quad_nodes(self.t, self.tr)
        x = np.exp(y) if self.logx else y
        return float(np.sum(w * (x if self.logx else 1.0) * self.g(np.clip(x, self.lo, self.hi), cs)))

    def norm_tol(self, cs, npts=1000):
        inv = np.exp if self.logx else (lambda v: v)
        h = (self.hi - self.lo) / (npts - 1)
        cell = np.min(np.diff(inv(self.t[self.k - 1 : self.n + 1])))
        jump = np.max(np.abs(np.diff(cs))) if self.logy else 1.0
        ends = h * np.max(self.g(np.array([self.lo, self.hi]) * 1.0 + 0, cs)) / max(self.integral(cs), 1e-300)
        return tol(1e-5, 5e-4) + 0.5 * (h / cell) ** 2 * (1 + jump) ** 2 + (ends if self.logx else 0)

    def away_from_edges(self, x):
        """log coordinates: within rounding of an end the point may fall on either side"""
        e = tol(1e-9, 1e-5)
        return (np.abs(x - self.lo) > e * (1 + abs(self.lo))) & (np.abs(x - self.hi) > e * (1 + abs(self.hi))) if (self.logx or not tol(True, False)) else np.ones(np.shape(x), bool)


def proportional(pairs, what, rtol, atol_rel, const=None, const_rtol=0.0):
    """every got = C * want with one constant C over all pairs; C close to ``const``"""
    scale = max([float(np.max(np.abs(w))) for _, w in pairs if np.size(w)] + [0.0])
    if scale == 0:
        return None
    num = den = 0.0
    for g, w in pairs:
        num += float(np.sum(g * w))
        den += float(np.sum(w * w))
    C = num / den
    require(np.isfinite(C), f"{what}: not finite")
    for g, w in pairs:
        close(g, C * w, f"{what} (shape)", rtol=rtol, atol=atol_rel * abs(C) * scale)
    if const is not None:
        close(C, const, f"{what} (normalisation)", rtol=const_rtol)
    return C
