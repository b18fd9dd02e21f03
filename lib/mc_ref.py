"""references for importance-sampling estimates, in extended precision"""

import numpy as np

LD = np.longdouble


def lse(v, axis=None):
    v = np.asarray(v, LD)
    m = np.max(v, axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    with np.errstate(divide="ignore"):
        out = np.log(np.sum(np.exp(v - m), axis=axis, keepdims=True)) + m
    return np.squeeze(out, axis=axis) if axis is not None else out.reshape(())


def bayes_factors(lw):
    n = lw.shape[1]
    s, s2 = lse(lw, 1), lse(2 * np.asarray(lw, LD), 1)
    ne = 2 * s - s2
    return tuple(np.asarray(v, float) for v in (s - np.log(LD(n)), ne, 1 / np.exp(ne) - 1 / LD(n)))


def efficiency(lw, N):
    """log mu, log neff, variance; and the condition number of the subtraction in neff"""
    s, s2 = lse(lw), lse(2 * np.asarray(lw, LD))
    a = np.exp(s2 - 2 * s)  # 1 / ess
    rel = a - 1 / LD(N)
    with np.errstate(divide="ignore", invalid="ignore"):
        ne = -np.log(rel)
        cond = float(a / rel) if rel > 0 else np.inf
    return float(s - np.log(LD(N))), float(ne), float(1 / np.exp(ne) - 1 / LD(N)), cond


def weights(r, shape, kind):
    """log weights"""
    if kind == "uniform":
        return np.zeros(shape) + 0.3
    if kind == "lognormal":
        return r.standard_normal(shape)
    if kind == "heavy":
        return 3 * r.standard_normal(shape)
    if kind == "one":  # one weight dominates
        lw = -8 + 0.1 * r.standard_normal(shape)
        lw[..., r.integers(shape[-1])] = 2.0
        return lw
    lw = r.standard_normal(shape)
    if shape[-1] > 1:
        lw = np.where(r.random(shape) < 0.5, -np.inf, lw)
        lw[..., 0] = 0.5
    return lw
