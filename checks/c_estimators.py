"""P15: Monte Carlo estimators."""

import numpy as np
from gens import fdict, logreals, reals, rng, seeds
from harness import arr, cast, close, fnum, require, sub, tol
from hypothesis import strategies as st
from mc_ref import bayes_factors, efficiency, weights

import jax
import jax.numpy as jnp

from gwinferno.pipeline import analysis as A

J = jnp.asarray
SP = st.sampled_from(["uniform", "lognormal", "heavy", "zeros", "one"])


def stretch(c):
    """logarithm of a factor common to all weights: as far as the arithmetic reaches"""
    far = 1.0 if not c["wide"] else (25.0 if c["log"] else tol(12.0, 1.2))
    return c["scale"] * far


@sub(
    fdict(s=seeds, ev=st.integers(1, 7), n=st.sampled_from([1, 2, 5, 40, 300]), kind=SP, scale=reals(-20.0, 20.0, special=[0.0]), log=st.booleans(), wide=st.booleans()),
    quick=300, thorough=10000, modes=("x64", "f32"),
    corpus=[dict(s=0, ev=3, n=40, kind="zeros", scale=0.0, log=lg, wide=False) for lg in (True, False)]
    + [dict(s=1, ev=2, n=40, kind="lognormal", scale=k, log=lg, wide=True) for k in (-20.0, 20.0) for lg in (True, False)]
    + [dict(s=2, ev=69, n=4000, kind="heavy", scale=3.0, log=lg, wide=False) for lg in (True, False)],
)
def event_estimates(c):
    """log of the mean weight, log of (sum w)^2 / sum w^2, 1/neff - 1/N, for every event on its own"""
    r = rng(c["s"])
    lw = weights(r, (c["ev"], c["n"]), c["kind"]) + stretch(c)
    lw = cast(lw) if c["log"] else np.log(cast(np.exp(lw)))
    x = lw if c["log"] else cast(np.exp(lw))
    f = lambda v: [arr(t, "estimate", (v.shape[0],)) for t in A.per_event_log_bayes_factors(J(v), log=c["log"])]
    bf, ne, var = f(x)
    wb, wn, wv = bayes_factors(lw)
    rt, at = tol(1e-9, 1e-5), tol(1e-9, 2e-4) * (1 + abs(stretch(c)) / 50)
    close(bf, wb, "log Bayes factors", rtol=rt, atol=at)
    close(ne, wn, "log effective sample sizes", rtol=rt, atol=at)
    close(var, wv, "variances", rtol=tol(1e-8, 1e-3) * at / tol(1e-9, 2e-4), atol=tol(1e-10, 1e-4))
    require(np.all(ne <= np.log(c["n"]) + at) and np.all(ne >= -at), "effective sample size outside [1, N]", ne=ne)
    require(np.all(var >= -tol(1e-10, 1e-4) * at / tol(1e-9, 2e-4)), "negative variance", var=var)
    # events do not influence one another; the order of the samples does not matter
    p, e = r.permutation(c["n"]), r.permutation(c["ev"])
    b2, n2, v2 = f(x[e][:, p])
    close(b2, wb[e], "permuted events and samples", rtol=rt, atol=at)
    close(n2, wn[e], "permuted events and samples", rtol=rt, atol=at)
    # a common factor of the weights shifts the log Bayes factor and nothing else; duplicating the samples changes nothing but the sample size
    k = fnum(1.5)
    b3, n3, v3 = f(x + k if c["log"] else cast(x * np.exp(k)))
    close(b3, wb + k, "rescaled weights", rtol=rt, atol=at)
    close(n3, wn, "rescaled weights", rtol=rt, atol=at)
    b4, n4, v4 = f(np.concatenate([x, x], axis=1))
    close(b4, wb, "duplicated samples", rtol=rt, atol=at)
    close(n4, wn + np.log(2), "duplicated samples", rtol=rt, atol=at)
    # both ways of passing the weights agree
    if c["log"] and c["wide"]:
        return f"{c['kind']}/log/wide" if c["n"] > 1 else None
    other = [arr(t) for t in A.per_event_log_bayes_factors(J(cast(np.exp(lw)) if c["log"] else cast(lw)), log=not c["log"])]
    for o, g, nm in zip(other, (bf, ne), ("log Bayes factors", "effective sample sizes")):
        close(o, g, f"{nm}: weights against log weights", rtol=10 * rt, atol=10 * at)
    return f"{c['kind']}/{'log' if c['log'] else 'linear'}" if c["n"] > 1 else None


@sub(
    fdict(s=seeds, n=st.sampled_from([1, 2, 10, 200, 2000]), extra=logreals(1.0, 1e5), kind=SP, scale=reals(-15.0, 15.0, special=[0.0]), log=st.booleans(), wide=st.booleans()),
    quick=300, thorough=10000, modes=("x64", "f32"),
    corpus=[dict(s=3, n=150000, extra=50.0, kind="heavy", scale=-2.0, log=lg, wide=False) for lg in (True, False)],
)
def selection_estimate(c):
    """log of sum w / Ninj, Farr's effective sample size mu^2/var and 1/neff - 1/Ninj"""
    r = rng(c["s"])
    lw = weights(r, (c["n"],), c["kind"]) + stretch(c)
    lw = cast(lw) if c["log"] else np.log(cast(np.exp(lw)))
    x = lw if c["log"] else cast(np.exp(lw))
    N = int(np.ceil(c["n"] * c["extra"])) + 1
    f = lambda v, m: [float(arr(t, "estimate", ())) for t in A.detection_efficiency(J(v), m, log=c["log"])]
    mu, ne, var = f(x, N)
    wm, wn, wv, cond = efficiency(lw, N)
    rt, at = tol(1e-9, 1e-5), tol(1e-9, 2e-4) * (1 + abs(stretch(c)) / 50)
    close(mu, wm, "log detection efficiency", rtol=rt, atol=at, n=c["n"], N=N)
    if cond < tol(1e6, 30.0):
        close(ne, wn, "log effective number of injections", rtol=rt, atol=at * cond)
        close(var, wv, "variance of the log detection efficiency", rtol=tol(1e-8, 1e-3) * cond, atol=tol(1e-12, 1e-6) + at * cond * np.exp(-wn))
    p = r.permutation(c["n"])
    close(f(x[p], N)[0], wm, "permuted injections", rtol=rt, atol=at)
    k = fnum(-2.5)
    m3, n3, _ = f(cast(x + k) if c["log"] else cast(x * np.exp(k)), N)
    close(m3, wm + k, "rescaled weights", rtol=rt, atol=at)
    # found injections of weight zero carry no information
    z = np.concatenate([x, np.full(3, -np.inf if c["log"] else 0.0)])
    m4, n4, v4 = f(z, N)
    close(m4, wm, "added injections of weight zero", rtol=rt, atol=at)
    if cond < tol(1e6, 30.0):
        close(n3, wn, "rescaled weights", rtol=rt, atol=at * cond)
        close(n4, wn, "added injections of weight zero", rtol=rt, atol=at * cond)
    m5, n5, _ = f(x, 2 * N)
    close(m5, wm - np.log(2), "twice as many injections made", rtol=rt, atol=at)
    return f"{c['kind']}/{'log' if c['log'] else 'linear'}" if c["n"] > 1 else None
