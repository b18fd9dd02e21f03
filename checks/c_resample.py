"""P26: injections resampled to a population."""

import numpy as np
from gens import fdict, reals, rng, seeds
from harness import arr, cast, close, require, sub, tol
from hypothesis import strategies as st
from mc_ref import efficiency

import jax
import jax.numpy as jnp

from gwinferno.preprocess.selection import resample_injections


@sub(
    fdict(s=seeds, n=st.sampled_from([5, 40, 400, 3000]), npar=st.integers(1, 4), prow=st.integers(0, 4), more=reals(1.0, 200.0), slope=reals(-2.0, 2.0), zeros=st.booleans()),
    quick=150, thorough=3000, modes=("x64", "f32"), split=4,
    corpus=[dict(s=s, n=3000, npar=2, prow=p, more=10.0, slope=k, zeros=z) for s, (p, k, z) in enumerate([(0, 1.0, True), (1, -1.5, False), (2, 0.5, True)])]
    + [dict(s=9, n=100000, npar=3, prow=1, more=10.0, slope=1.0, zeros=True)],
)
def resampled(c):
    """the new set holds as many injections as the old one is worth, each a copy of an old one with the population as its density: same detection efficiency for the population, consistent ones for others"""
    r = rng(c["s"])
    n, m = c["n"], c["npar"]
    prow = c["prow"] % (m + 1)
    rows = [i for i in range(m + 1) if i != prow]
    data = np.zeros((m + 1, n))
    x = r.random((m, n))
    if c["zeros"]:
        x[0] = np.where(r.random(n) < 0.3, -x[0] - 1e-3, x[0])
        x[0, 0] = 0.5
    data[rows] = x
    data[prow] = 0.2 + r.random(n)
    data = cast(data)
    pm = {f"p{i}": row for i, row in enumerate(rows)}
    pm["prior"] = prow

    def model(d, k=1.0):
        v = d[pm["p0"], :]
        return jnp.where(v >= 0, jnp.exp(k * v), 0.0)

    ref = lambda d, k: np.where(d[pm["p0"]] >= 0, np.exp(k * d[pm["p0"]]), 0.0)
    w = ref(data, c["slope"]) / data[prow]
    Nd = int(n * c["more"]) + 1
    before = data.copy()
    new, N, neff = resample_injections(jax.random.PRNGKey(c["s"] % 2**31), model, jnp.asarray(data), Nd, pm, k=c["slope"])
    require(np.array_equal(before, data), "the injections given were changed")
    ess = w.sum() ** 2 / (w**2).sum()
    require(abs(N - ess) <= 1 + tol(1e-6, 1e-3) * ess and N <= ess * (1 + 1e-5) + 1e-3, "number of resampled injections", got=N, ess=ess)
    new = arr(new, "resampled injections", (m + 1, int(N)))
    with np.errstate(divide="ignore"):
        mu, ne, _, cond = efficiency(np.log(w), Nd)
    if cond < tol(1e6, 30):
        close(np.log(float(neff)), ne, "effective number of injections", rtol=tol(1e-8, 1e-3), atol=tol(1e-8, 1e-3) * cond)
    order = np.lexsort(data[rows][::-1])
    keys = {tuple(v): i for i, v in enumerate(data[rows].T)}
    idx = np.array([keys.get(tuple(v), -1) for v in new[rows].T])
    require(np.all(idx >= 0), "a resampled injection is not one of those given", bad=new[:, np.argmax(idx < 0)])
    require(np.all(w[idx] > 0), "an injection of weight zero was drawn")
    close(new[prow], ref(new, c["slope"]) / np.exp(mu), "density of the resampled injections", rtol=tol(1e-9, 1e-4))
    # the same number for the population itself
    close(np.mean(ref(new, c["slope"]) / new[prow]), np.exp(mu), "detection efficiency after resampling", rtol=tol(1e-9, 1e-4))
    # drawn in proportion to their weights: any average agrees within its Monte Carlo error
    p = w / w.sum()
    for f in (data[rows[-1]], np.arange(n) / n, (np.arange(n) % 2).astype(float)):
        mean = np.sum(p * f)
        sd = np.sqrt(np.sum(p * (f - mean) ** 2) / N)
        require(abs(np.mean(f[idx]) - mean) <= 6.5 * sd + tol(1e-9, 1e-5), "injections are not drawn in proportion to their weights", got=np.mean(f[idx]), want=mean, sd=sd, N=N)
    return f"{'N>30' if N > 30 else 'small'}, {'with' if c['zeros'] else 'without'} zeros"
