"""reference for p(chi_p | chi_eff, q)"""

import numpy as np
from scipy.stats import gaussian_kde


def largest_chi_p(xe, q, a=1.0):
    return a if (1 + q) * abs(xe) / q < a else float(np.sqrt(max(a**2 - ((1 + q) * abs(xe) - q * a) ** 2, 0.0)))


def conditional_ref(r, xe, q, a, top, g, n):
    """the documented estimate with draws of its own: n physical spins given chi_eff, weighted by the jacobian 1/a1, smoothed, zero at both ends, normalised"""
    a1 = a2 = t1 = t2 = np.zeros(0)
    while a1.size < n:
        m = 4 * n
        b1, b2, u2 = a * r.random(m), a * r.random(m), r.uniform(-1, 1, m)
        u1 = ((1 + q) * xe - q * b2 * u2) / b1
        ok = np.abs(u1) <= 1
        a1, a2, t1, t2 = [np.concatenate([x, y[ok]])[:n] for x, y in ((a1, b1), (a2, b2), (t1, u1), (t2, u2))]
    cp = np.maximum(a1 * np.sqrt(1 - t1**2), q * (3 + 4 * q) / (4 + 3 * q) * a2 * np.sqrt(1 - t2**2))
    x = np.linspace(0.05 * top, 0.95 * top, 50)
    y = np.concatenate([[0], gaussian_kde(cp, weights=1 / a1)(x), [0]])
    x = np.concatenate([[0], x, [top]])
    y = np.interp(g, x, y / np.trapz(y, x))
    return np.concatenate([[0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(g))]), np.trapz(y * g, g)


def conditional_density(r, xp, xe, q, a=1.0, n=10000, reps=5):
    """density at xp and a tolerance for its Monte Carlo error"""
    top = largest_chi_p(xe, q, a)
    g = np.linspace(0, 1.2 * a, 601)
    ds = []
    for _ in range(reps):
        c, _m = conditional_ref(r, xe, q, a, top, g, n)
        h = 0.004 * a
        lo, hi = max(xp - h, 0), xp + h
        ds.append((np.interp(hi, g, c) - np.interp(lo, g, c)) / (hi - lo))
    return float(np.mean(ds)), 8 * float(np.std(ds)) + 0.25 / a
