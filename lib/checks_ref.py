"""float64 reference densities, written independently of the code under test"""

import numpy as np
import scipy.special as sp


def powerlaw_ref(x, a, lo, hi, floor=0.0):
    x, a, lo, hi = np.broadcast_arrays(*(np.asarray(v, float) for v in (x, a, lo, hi)))
    with np.errstate(all="ignore"):
        L = np.log(hi / lo)
        k = (1 + a) * L
        integral = np.where(a == -1, L, lo ** (1 + a) * np.where(k == 0, 1, np.expm1(k)) / np.where(a == -1, 1, 1 + a))
        p = x**a / integral
    return np.where((x < lo) | (x > hi), floor, p)


def truncnorm_ref(x, mu, sig, lo, hi):
    x = np.asarray(x, float)
    z0, z1 = (np.asarray(lo, float) - mu) / sig, (np.asarray(hi, float) - mu) / sig
    mass = np.where(z0 > 0, sp.ndtr(-z0) - sp.ndtr(-z1), sp.ndtr(z1) - sp.ndtr(z0))
    p = np.exp(-((x - mu) ** 2) / (2 * sig**2)) / (sig * np.sqrt(2 * np.pi)) / mass
    return np.where((x < lo) | (x > hi), 0.0, p)


def beta_ref(x, a, b, scale=1.0):
    x = np.asarray(x, float)
    with np.errstate(all="ignore"):
        lp = sp.xlogy(a - 1, x) + sp.xlogy(b - 1, scale - x) - (a + b - 1) * np.log(scale) - sp.betaln(a, b)
        return np.where((x >= 0) & (x <= scale), np.exp(lp), 0.0)


def smooth_ref(dx, x, xmin):
    u = np.asarray(x, float) - xmin
    with np.errstate(all="ignore"):
        w = sp.expit(-(dx / np.where(u == 0, 1e-300, u) + dx / np.where(u - dx == 0, -1e-300, u - dx)))
    return np.where(u < 0, 0.0, np.where(u >= dx, 1.0, w))


def trapz(y, x, axis=-1):
    y, x = np.asarray(y, float), np.asarray(x, float)
    d = np.diff(x)
    y = np.moveaxis(y, axis, -1)
    return np.sum((y[..., 1:] + y[..., :-1]) / 2 * d, axis=-1)


def cumtrapz(y, x):
    return np.concatenate([[0.0], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(x))])
