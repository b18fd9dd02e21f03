"""P20: spin and beta-distribution conversions."""

import numpy as np
import scipy.stats as ss
from gens import fdict, rng, seeds, shapes
from harness import arr, cast, close, is_x64, require, sub, tol
from hypothesis import strategies as st

import jax.numpy as jnp

from gwinferno.preprocess.conversions import alpha_beta_from_mu_var, chieff_from_q_component_spins, chip_from_q_component_spins, mu_var_from_alpha_beta

KIND = st.sampled_from(["numpy", "jax", "scalar"])


def wrap(kind, v):
    if kind == "jax":
        return jnp.asarray(v)
    if kind == "scalar":
        return float(v)
    return np.array(v)


def draw(c, r):
    sh = [] if c["kind"] == "scalar" else c["shape"]
    u = lambda lo, hi: cast(lo + (hi - lo) * r.random(sh))
    q, a1, a2, t1, t2 = u(0.01, 1), u(0, 1), u(0, 1), u(-1, 1), u(-1, 1)
    for v in (q, a1, a2, t1, t2):  # limits of the ranges
        if v.ndim and r.random() < 0.5:
            v.flat[0] = [0.0, 1.0][r.integers(2)] if v is not q else 1.0
        if v.ndim and v.size > 1 and v is not q and r.random() < 0.3:
            v.flat[1] = 0.0 if (v is a1 or v is a2) else -1.0
    return q, a1, a2, t1, t2


@sub(fdict(kind=KIND, shape=shapes(), s=seeds), quick=400, thorough=10000, modes=("x64", "f32"))
def effective_spins(c):
    """definitions, bounds, aligned/in-plane limits, sign and exchange symmetries; arguments unchanged"""
    r = rng(c["s"])
    q, a1, a2, t1, t2 = draw(c, r)
    w = [wrap(c["kind"], v) for v in (q, a1, a2, t1, t2)]
    keep = [np.array(v) for v in w]
    m = dict(math=jnp) if c["kind"] == "jax" else {}
    xe, xp = chieff_from_q_component_spins(*w), chip_from_q_component_spins(*w, **m)
    for v, k in zip(w, keep):
        require(np.array_equal(np.asarray(v), k), "the conversion changed its arguments")
    xe, xp = arr(xe, "chi_eff", q.shape), arr(xp, "chi_p", q.shape)
    rt = tol(1e-12, 1e-5)
    at = tol(1e-14, 1e-6)
    m1, m2 = 1 / (1 + q), q / (1 + q)
    close(xe, m1 * a1 * t1 + m2 * a2 * t2, "effective spin", rtol=rt, atol=at)
    s1, s2 = a1 * np.sqrt(1 - t1**2), a2 * np.sqrt(1 - t2**2)
    B1, B2 = 2 + 1.5 * q, 2 + 1.5 / q  # Schmidt et al. 2015
    want = np.maximum(B1 * m1**2 * s1, B2 * m2**2 * s2) / (B1 * m1**2)
    # the square root amplifies rounding of the cosine close to one
    close(xp, want, "effective precessing spin", rtol=tol(1e-10, 1e-4), atol=tol(1e-7, 1e-3))
    require(np.all(np.abs(xe) <= 1 + at) and np.all(xp >= 0) and np.all(xp <= 1 + at), "effective spins out of range", chi_eff=xe, chi_p=xp)
    f = lambda *v: chieff_from_q_component_spins(*[wrap(c["kind"], x) for x in v])
    g = lambda *v: chip_from_q_component_spins(*[wrap(c["kind"], x) for x in v], **m)
    close(f(q, a1, a2, -t1, -t2), -xe, "flipped spins", rtol=rt, atol=at)
    close(g(q, a1, a2, -t1, -t2), xp, "flipped spins", rtol=rt, atol=at)
    one = np.ones_like(q)
    close(f(one, a2, a1, t2, t1), arr(f(one, a1, a2, t1, t2)), "exchanged components of equal mass", rtol=rt, atol=at)
    close(g(one, a2, a1, t2, t1), arr(g(one, a1, a2, t1, t2)), "exchanged components of equal mass", rtol=rt, atol=at)
    close(g(q, a1, a2, one, -one), 0.0, "aligned spins do not precess", atol=at)
    return f"{c['kind']}/{q.ndim}d"


@sub(
    fdict(kind=KIND, shape=shapes(), s=seeds, xmax=st.sampled_from([1, 1.0, 0.5, 0.99, 2, 3.7]), vector_xmax=st.booleans(), default=st.booleans()),
    quick=400, thorough=10000, modes=("x64", "f32"),
)
def beta_moments(c):
    """mean and variance of the scaled beta distribution and the way back, for any maximum; arguments unchanged"""
    r = rng(c["s"])
    sh = [] if c["kind"] == "scalar" else c["shape"]
    a, b = cast(np.exp(r.uniform(-2, 4, sh))), cast(np.exp(r.uniform(-2, 4, sh)))
    xm = c["xmax"] if not c["vector_xmax"] or c["kind"] == "scalar" else cast(np.broadcast_to(c["xmax"], sh) * (1 + r.random(sh)))
    if c["default"]:
        xm = 1
    kw = {} if c["default"] else dict(xmax=xm if np.ndim(xm) == 0 else wrap(c["kind"], xm))
    w = [wrap(c["kind"], a), wrap(c["kind"], b)]
    keep = [np.array(v) for v in w]
    mu, var = mu_var_from_alpha_beta(*w, **kw)
    rt = tol(1e-11, 1e-5)
    d = ss.beta(a, b)
    close(mu, np.broadcast_to(d.mean() * xm, a.shape), "mean", rtol=rt)
    close(var, np.broadcast_to(d.var() * np.square(xm), a.shape), "variance", rtol=rt)
    km, kv = np.array(mu), np.array(var)
    a2, b2 = alpha_beta_from_mu_var(mu, var, **kw)
    require(np.array_equal(np.asarray(mu), km) and np.array_equal(np.asarray(var), kv), "the conversion changed its arguments")
    require(all(np.array_equal(np.asarray(v), k) for v, k in zip(w, keep)), "the conversion changed its arguments")
    # a difference of nearly equal numbers when the distribution is narrow
    f = tol(1e-9, 2e-2)
    close(a2, a, "alpha recovered from the moments", rtol=f)
    close(b2, b, "beta recovered from the moments", rtol=f)
    m3, v3 = mu_var_from_alpha_beta(a2, b2, **kw)
    close(m3, km, "mean of the recovered shape", rtol=f)
    close(v3, kv, "variance of the recovered shape", rtol=10 * f)
    if not is_x64():
        pass
    return f"{c['kind']}/{'default' if c['default'] else 'vector' if np.ndim(xm) else xm}"
