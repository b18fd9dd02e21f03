"""P17: posterior predictive draws."""

import numpy as np
from gens import fdict, logreals, reals, rng, seeds
from harness import arr, cast, close, fnum, require, sub, tol
from hypothesis import strategies as st

import jax
import jax.numpy as jnp
from checks.c_likelihood import traced
import harness

harness.SUBS.clear()
J = jnp.asarray
NAMES = ["mass_1", "mass_ratio", "redshift", "a_1"]


def catalog(r, shape):
    m1 = np.exp(np.log(2.5) + np.log(60) * r.random(shape))
    return dict(mass_1=cast(m1), mass_ratio=cast(0.1 + 0.9 * r.random(shape)), redshift=cast(r.random(shape)), a_1=cast(r.random(shape)))


def allowed(d, w, m1min, m2min, mmax):
    m1, m2 = d["mass_1"], d["mass_1"] * d["mass_ratio"]
    return (m1 >= m1min) & (m1 <= mmax) & (m2 >= m2min) & (w > 0)


def rows(d):
    return np.stack([np.asarray(d[k]) for k in NAMES], axis=-1)


CASE = dict(s=seeds, nobs=st.integers(1, 5), ns=st.sampled_from([12, 60]), ninj=st.sampled_from([30, 200]), log=st.booleans(), lims=st.sampled_from(["default", "own", "own"]), m1=reals(2.0, 20.0), m2=reals(2.0, 8.0), mx=reals(30.0, 120.0), zero=reals(0.0, 0.8), nn=st.integers(1, 4), off=st.sampled_from([0.0, 0.0, -150.0, -900.0, 120.0, 900.0]))


def setup(c):
    r = rng(c["s"])
    pe, inj = catalog(r, (c["nobs"], c["ns"])), catalog(r, (c["ninj"],))
    lim = dict(m1min=5.0, m2min=3.0, mmax=100.0) if c["lims"] == "default" else dict(m1min=fnum(c["m1"]), m2min=fnum(min(c["m2"], c["m1"])), mmax=fnum(c["mx"]))
    wp, wi = (cast(np.where(r.random(s) < c["zero"], 0.0, np.exp(r.standard_normal(s)))) for s in ((c["nobs"], c["ns"]), (c["ninj"],)))
    # at least one usable sample each
    for d, w in ((pe, wp), (inj, wi)):
        d["mass_1"][..., 0], d["mass_ratio"][..., 0], w[..., 0] = cast(max(25.0, lim["m1min"] * 1.1)), cast(0.9), 1.0
    return r, pe, inj, lim, wp, wi


def call(c, pe, inj, lim, wp, wi, names, seed=0, **more):
    with np.errstate(divide="ignore"):
        p, i = (cast(np.log(w) + c["off"]) if c["log"] else w for w in (wp, wi))  # log weights may lie outside of the range of exp
    kw = {} if c["lims"] == "default" else lim
    return traced(seed, None, J(p), J(i), 50000, c["nobs"], 1.0, reconstruct_rate=False, min_neff_cut=False, posterior_predictive_check=True, param_names=names,
                  pedata={k: J(v) for k, v in pe.items()}, injdata={k: J(v) for k, v in inj.items()}, log=c["log"], **kw, **more)[1]


@sub(fdict(**CASE), quick=160, thorough=2500, modes=("x64", "f32"), split=2)
def draws(c):
    """one draw per event of the catalogue and of the predictions: an existing sample, all of its parameters together, inside the mass limits and of non-zero weight"""
    r, pe, inj, lim, wp, wi = setup(c)
    names = NAMES[: c["nn"]]
    tr = call(c, pe, inj, lim, wp, wi, names)
    okp, oki = allowed(pe, wp, **lim), allowed(inj, wi, **lim)
    cols = [NAMES.index(n) for n in names]
    for ev in range(c["nobs"]):
        obs = np.array([float(arr(tr[f"{n}_obs_event_{ev}"]["value"], "observed draw", ())) for n in names])
        pred = np.array([float(arr(tr[f"{n}_pred_event_{ev}"]["value"], "predicted draw", ())) for n in names])
        hit = np.all(rows(pe)[ev][:, cols] == obs, axis=-1)
        require(np.any(hit), "an observed draw is not one of the event's posterior samples", event=ev, draw=obs)
        require(np.any(hit & okp[ev]), "an observed draw lies outside the limits or has no weight", event=ev, draw=obs, lim=lim)
        hit = np.all(rows(inj)[:, cols] == pred, axis=-1)
        require(np.any(hit), "a predicted draw is not one of the injections", event=ev, draw=pred)
        require(np.any(hit & oki), "a predicted draw lies outside the limits or has no weight", event=ev, draw=pred, lim=lim)
    extra = [k for k in tr if "_event_" in k and not any(k in (f"{n}_obs_event_{e}", f"{n}_pred_event_{e}") for n in names for e in range(c["nobs"]))]
    require(not extra, "unexpected predictive quantities", extra=extra)
    # drawing the predictions does not alter the likelihood
    with np.errstate(divide="ignore"):
        p, i = (cast(np.log(w) + c["off"]) if c["log"] else w for w in (wp, wi))
    base = traced(0, None, J(p), J(i), 50000, c["nobs"], 1.0, reconstruct_rate=False, min_neff_cut=False, log=c["log"])[1]
    close(float(tr["log_l"]["value"]), float(base["log_l"]["value"]), "log likelihood with and without predictions", rtol=1e-6)
    require(not any("_event_" in k for k in base), "predictions without being asked for")
    return "some samples not allowed" if not (np.all(okp) and np.all(oki)) else "all allowed"


@sub(fdict(s=seeds, nobs=st.just(120), log=st.booleans(), which=st.sampled_from(["obs", "pred"]), off=st.sampled_from([0.0, -150.0, 150.0])), quick=12, thorough=60, modes=("f32",), split=2, corpus=[dict(s=i, nobs=120, log=bool(i % 2), which=w, off=0.0) for i, w in enumerate(["obs", "pred", "pred"])])
def proportional_to_weight(c):
    """over many events the draws follow the weights"""
    r = rng(c["s"])
    n = 4
    p = r.dirichlet(np.full(n, 1.5))
    ns = n * 3
    grp = np.arange(ns) % n
    pe = {k: cast(v) for k, v in dict(mass_1=np.full((c["nobs"], ns), 30.0), mass_ratio=np.full((c["nobs"], ns), 0.9), redshift=np.tile(grp, (c["nobs"], 1)), a_1=np.zeros((c["nobs"], ns))).items()}
    inj = {k: cast(v[0]) for k, v in pe.items()}
    w = cast(p[grp])
    tr = call(dict(c, lims="default"), pe, inj, None, np.tile(w, (c["nobs"], 1)), w, ["redshift"])
    got = np.array([int(tr[f"redshift_{c['which']}_event_{e}"]["value"]) for e in range(c["nobs"])])
    cnt = np.bincount(got, minlength=n)
    exp = c["nobs"] * p
    # Poisson-like bound with probability < 1e-7 per group
    lim = 5.5 * np.sqrt(exp * (1 - p) + 1) + 3
    require(np.all(np.abs(cnt - exp) < lim), f"{c['which']} draws do not follow their weights", counts=cnt, expected=exp)
    require(len(set(got)) > 1 or np.max(p) > 0.85, f"all {c['which']} draws are the same", counts=cnt)
    return c["which"]


@sub(
    fdict(s=seeds, nobs=st.integers(2, 12), n=st.sampled_from([20000, 60000]), which=st.sampled_from(["obs", "pred"]), log=st.booleans()), quick=4, thorough=40, modes=("f32",),
    corpus=[dict(s=2463, nobs=9, n=60000, which="pred", log=False), dict(s=2373, nobs=8, n=60000, which="pred", log=False), dict(s=3252, nobs=29, n=60000, which="obs", log=False)],
)
def many_samples(c):
    """tens of thousands of weights, whose cumulative sum is rounded: still none of weight zero is drawn"""
    r = rng(c["s"])
    n, m = c["n"], c["nobs"]
    w = np.where(r.random(n) < 0.6, 0, np.exp(r.standard_normal(n))).astype(np.float32)
    one = np.array([1.0], np.float32)
    mk = lambda v, few: dict(mass_1=np.full(few, 30.0, np.float32), mass_ratio=np.full(few, 0.9, np.float32), redshift=v)
    if c["which"] == "obs":
        pe, inj, wp, wi = mk(np.tile(w, (m, 1)), (m, n)), mk(one, 1), np.tile(w, (m, 1)), one
    else:
        pe, inj, wp, wi = mk(np.tile(one, (m, 1)), (m, 1)), mk(w, n), np.ones((m, 1), np.float32), w
    tr = call(dict(c, lims="default", off=0.0), pe, inj, None, wp, wi, ["redshift"])
    for ev in range(m):
        v = float(arr(tr[f"redshift_{c['which']}_event_{ev}"]["value"], "draw", ()))
        require(v > 0 and np.any(v == w), "a sample of weight zero was drawn", event=ev, draw=v)
    return c["which"]


@sub(fdict(**{k: v for k, v in CASE.items() if k not in ("nn", "zero", "off")}, k=st.integers(2, 3)), quick=30, thorough=600, modes=("x64",), split=2)
def subpopulation_fractions(c):
    """for marginalised sub-populations the reported fractions are those of the drawn sample: in [0,1], adding up to one"""
    c = dict(c, zero=0.3, off=0.0)
    r, pe, inj, lim, wp, wi = setup(c)
    share = r.dirichlet(np.ones(c["k"]), wp.shape)
    indv = [J(share[..., j] * wp) for j in range(c["k"])]
    tr = call(c, pe, inj, lim, wp, wi, NAMES, marginal_qs=True, indv_weights=indv)
    for ev in range(c["nobs"]):
        obs = np.array([float(tr[f"{n}_obs_event_{ev}"]["value"]) for n in NAMES])
        f = np.array([float(arr(tr[f"cat_frac_subpop_{j + 1}_event_{ev}"]["value"], "fraction", ())) for j in range(c["k"])])
        j = int(np.argmax(np.all(rows(pe)[ev] == obs, axis=-1)))
        close(f, share[ev, j], "fractions of the drawn sample", rtol=1e-6, atol=1e-9)
        close(np.sum(f), 1.0, "sum of the fractions", rtol=1e-6)
    return f"{c['k']} sub-populations"


@sub(fdict(**{k: v for k, v in CASE.items() if k not in ("nn", "off")}, k=st.integers(2, 3)), quick=40, thorough=600, modes=("x64", "f32"), split=2)
def assigned_subpopulations(c):
    """with events assigned to sub-populations the observed draws follow the weights of the event's own sub-population, and the likelihood is unchanged"""
    c = dict(c, off=0.0, nn=4)
    r, pe, inj, lim, wp, wi = setup(c)
    # each posterior sample has weight in one sub-population only
    home = r.integers(0, c["k"], wp.shape)
    pes, Q = [], r.integers(0, c["k"], c["nobs"])
    home[:, 0] = Q
    for j in range(c["k"]):
        w = cast(np.where(home == j, wp, 0.0))
        w[:, 1] = cast(np.maximum(w[:, 1], 1e-3))  # every sub-population gives every event some weight
        pes.append(w)
    with np.errstate(divide="ignore"):
        ps, i = [J(cast(np.log(w))) if c["log"] else J(w) for w in pes], J(cast(np.log(wi)) if c["log"] else wi)
    frac = tuple(fnum(x) for x in r.dirichlet(np.ones(c["k"]) * 3))
    kw = dict(categorical=True, pop_frac=frac, rngkey=jax.random.PRNGKey(c["s"] % 997), reconstruct_rate=False, min_neff_cut=False, log=c["log"], **({} if c["lims"] == "default" else lim))
    more = dict(posterior_predictive_check=True, param_names=NAMES, pedata={k: J(v) for k, v in pe.items()}, injdata={k: J(v) for k, v in inj.items()})
    tr = traced(0, {"Qs": J(Q)}, ps, i, 50000, c["nobs"], 1.0, **kw, **more)[1]
    base = traced(0, {"Qs": J(Q)}, ps, i, 50000, c["nobs"], 1.0, **kw)[1]
    mine = np.stack([pes[q][e] for e, q in enumerate(Q)])
    ok, oki = allowed(pe, mine, **lim), allowed(inj, wi, **lim)
    for ev in range(c["nobs"]):
        obs = np.array([float(arr(tr[f"{n}_obs_event_{ev}"]["value"], "observed draw", ())) for n in NAMES])
        pred = np.array([float(arr(tr[f"{n}_pred_event_{ev}"]["value"], "predicted draw", ())) for n in NAMES])
        require(np.any(np.all(rows(pe)[ev] == obs, axis=-1) & ok[ev]), "an observed draw has no weight in the event's own sub-population", event=ev, draw=obs, Q=Q)
        require(np.any(np.all(rows(inj) == pred, axis=-1) & oki), "a predicted draw lies outside the limits or has no weight", event=ev, draw=pred)
    close(float(tr["log_l"]["value"]), float(base["log_l"]["value"]), "log likelihood with and without predictions", rtol=1e-6)
    return f"{c['k']} sub-populations"
