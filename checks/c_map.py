"""P30: maximum a posteriori estimates."""

import numpy as np
from gens import fdict, reals, rng, seeds
from harness import arr, cast, close, require, sub, tol
from hypothesis import strategies as st

import jax
import jax.numpy as jnp
import numpyro
import numpyro.distributions as dist

from gwinferno.pipeline.analysis import find_map

J = jnp.asarray


def model(y, sig, m0, s0, shift, pos):
    mu = numpyro.sample("mu", dist.Normal(J(m0), s0).to_event(1))
    if pos:
        tau = numpyro.sample("tau", dist.Gamma(4.0, 2.0))
        numpyro.factor("t", 3.0 * jnp.log(tau) - 2.5 * tau)
    numpyro.sample("y", dist.Normal(mu[None, :] + (0.0 if shift is None else shift), sig).to_event(2), obs=y)


def values(out):
    """the optimised value of each latent site"""
    return {k.replace("_auto_loc", ""): arr(v, k) for k, v in out.items()}


@sub(
    fdict(dim=st.integers(1, 4), n=st.integers(1, 20), sig=reals(0.2, 3.0), s0=reals(0.2, 3.0), pos=st.booleans(), s=seeds, key=st.integers(0, 1000), lr=st.sampled_from([0.01, 0.03])),
    quick=12, thorough=300, modes=("x64", "f32"), split=4,
)
def mode_of_the_posterior(c):
    r = rng(c["s"])
    m0 = cast(3 * r.standard_normal(c["dim"]))
    y = cast(m0 + c["s0"] * r.standard_normal(c["dim"]) + c["sig"] * r.standard_normal((c["n"], c["dim"])))
    shift = [None, 0.0, 1.5][r.integers(3)]  # arguments of the model may be None
    args = (J(y), c["sig"], m0, c["s0"], shift, c["pos"])
    y = y - (shift or 0.0)
    run = lambda k: values(find_map(jax.random.PRNGKey(k), model, *args, Niter=3000, lr=c["lr"]))
    got = run(c["key"])
    want = dict(mu=(m0 / c["s0"] ** 2 + y.sum(0) / c["sig"] ** 2) / (1 / c["s0"] ** 2 + c["n"] / c["sig"] ** 2))
    if c["pos"]:
        want["tau"] = 6.0 / 4.5  # (tau^3 e^-2tau)(tau^3 e^-2.5tau) in tau itself
    require(sorted(got) == sorted(want), "parameters estimated", got=sorted(got))
    for k, w in want.items():
        close(arr(got[k], k, np.shape(w)), w, f"maximum of the posterior in {k}", rtol=0, atol=2 * c["lr"])
    return "constrained" if c["pos"] else "unconstrained"


def far(target):
    x = numpyro.sample("x", dist.Normal(0.0, 1.0))
    numpyro.factor("pull", target * x)


@sub(fdict(n1=st.integers(1, 150), n2=st.integers(1, 150), lr=st.sampled_from([1e-4, 0.002, 0.01, 0.05, 0.3, 1.0]), sign=st.sampled_from([-1, 1]), key=st.integers(0, 1000)), quick=16, thorough=300, modes=("x64",), split=2)
def iterations_and_step(c):
    """far from the maximum every iteration moves by the learning rate; same key, same result"""
    t = 1e9 * c["sign"]
    run = lambda **k: float(values(find_map(jax.random.PRNGKey(c["key"]), far, t, **k))["x"])
    a, b = run(Niter=c["n1"], lr=c["lr"]), run(Niter=c["n2"], lr=c["lr"])
    close(b - a, (c["n2"] - c["n1"]) * c["lr"] * c["sign"], "distance moved", rtol=1e-3, atol=1e-6)
    close(run(Niter=c["n1"], lr=c["lr"]), a, "same key and settings", rtol=1e-12)
    d = run()
    close(d - a, (100 * 0.01 - c["n1"] * c["lr"]) * c["sign"], "default of 100 iterations at 0.01", rtol=1e-3, atol=1e-6)
    return "moves" if c["n1"] != c["n2"] else None
