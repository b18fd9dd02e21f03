"""P31: gradients of the population densities with respect to population parameters."""

import numpy as np
from gens import fdict, reals, rng, seeds
from harness import SUBS, arr, cast, close, is_x64, require, sub
from hypothesis import strategies as st
from checks import c_config as C
from numpyro.infer.util import log_density

import jax
import jax.numpy as jnp
from numpyro import handlers

from gwinferno import distributions as D
from gwinferno import numpyro_distributions as N
from gwinferno.models.bsplines import separable as S
from gwinferno.models.bsplines import single as B
from gwinferno.models.bsplines.smoothing import apply_difference_prior
from gwinferno.models.parametric import parametric as P
from gwinferno.models import spline_perturbation as SP

SUBS.clear()  # the checks of the module imported above are not part of this one
J = jnp.asarray


def off(x, edges, eps=1e-3):
    """move points away from edges which depend on a differentiated parameter"""
    x = np.array(x, float)
    for e in edges:
        x = np.where(np.abs(x / e - 1) < eps, e * (1 + 2 * eps), x)
    return x


def mass_samples(r, n, mmin, mmax, delta=None):
    """inside, far outside, and right next to the edges of the taper"""
    m = np.where(r.random(n) < 0.2, np.where(r.random(n) < 0.5, mmin * 0.7, mmax * r.uniform(1.05, 3.0, n)), np.exp(r.uniform(np.log(mmin), np.log(mmax), n)))
    if delta is not None:
        k = r.integers(0, 8, n)
        near = np.array([1.0, 3.0, 10.0, 50.0])[r.integers(0, 4, n)] * 1e-3
        m = np.where(k == 0, mmin + delta * near, np.where(k == 1, mmin + delta * (1 - near), np.where(k == 2, mmin + delta * (1 + near), m)))
    return m


def off_ratio(q, m, mmin):
    low = mmin / m
    q = np.where(np.abs(q - 1) < 1e-3, 0.99, q)
    q = np.where(np.abs(q / low - 1) < 2e-3, low * 1.01, q)
    q[::7] = np.where(low[::7] < 0.9, 1.0, q[::7])  # equal masses: an edge which does not move
    return q


def at(x, *values):
    """put some of the samples exactly at the given values"""
    x = np.array(x, float)
    for i, v in enumerate(values):
        x.reshape(-1)[3 + 5 * i] = v
    return x


def parametric_case(c, r):
    n = 40
    w = c["which"]
    mmin, mmax = 4.0 + 3 * r.random(), 40.0 + 40 * r.random()
    al, be = r.uniform(-4, 2), r.uniform(-0.7, 4)
    al = al if abs(al + 1) > 0.2 else -1.0
    be = be if r.random() > 0.2 else -1.0
    if w == "power law masses":
        m = off(mass_samples(r, n, mmin, mmax), [mmin, mmax])
        q = off_ratio(r.uniform(0.02, 1.1, n), m, mmin)
        return (lambda t: P.powerlaw_primary_ratio_pdf(J(m), J(q), t[0], t[1], t[2], t[3])), [al, be, mmin, mmax]
    if w == "power law masses with falloff":
        m = off(mass_samples(r, n, mmin, mmax), [mmin, mmax])
        q = off_ratio(r.uniform(0.02, 1.1, n), m, mmin)
        return (lambda t: P.powerlaw_primary_ratio_falloff_pdf(J(m), J(q), t[0], t[1], t[2], t[3], t[4])), [al, be, mmin, mmax, 2 + 6 * r.random()]
    if w in ("power law and peak", "tapered power law and peak"):
        tap = w.startswith("tap")
        d = r.uniform(1.0, 8.0)
        m = off(mass_samples(r, n, mmin, mmax, d if tap else None), [mmin, mmax, mmin + d], 1e-4)
        q = off_ratio(r.uniform(0.02, 1.1, n), m, mmin)
        q = np.where(np.abs(q * m / (mmin + d) - 1) < 1e-3, 0.97 * q, q)
        q = off_ratio(q, m, mmin)
        mpp = float(cast(r.uniform(20, 38)))
        m = at(m, mpp, mpp)
        q = off_ratio(q, m, mmin)
        q = np.where(np.abs(q * m / (mmin + d) - 1) < 1e-3, 0.9 * q, q)
        th = [al, be, mmin, mmax, mpp, r.uniform(2, 8), r.uniform(0.05, 0.9)] + ([d] if tap else [])
        return (lambda t: P.plpeak_primary_ratio_pdf(J(m), J(q), *[t[i] for i in range(7)], **({"delta": t[7]} if tap else {}))), th
    if w == "spin magnitudes":
        amax = r.choice([1.0, 0.8])
        a1, a2 = r.uniform(0.01, 1.2, n), r.uniform(-0.2, 0.99, n)
        a1, a2 = off(a1, [amax]), off(a2, [amax])
        a1, a2 = at(a1, 0.0, amax, 0.3), at(a2, 0.2, amax, 0.0)
        f = lambda t: D.betadist(J(a1), t[0], t[1], scale=amax) + P.iid_spin_magnitude(J(a1), J(a2), t[0], t[1], amax=amax) + P.independent_spin_magnitude_beta_dist(J(a1), J(a2), t[0], t[1], t[2], t[3], amax1=amax, amax2=amax)
        return f, list(r.uniform(1.1, 6, 4))
    if w == "spin tilts":
        t1, t2 = at(r.uniform(-1.1, 1.1, n), 1.0, -1.0, 0.0, 1.0), at(r.uniform(-1.1, 1.1, n), 1.0, 0.3, 0.0, -1.0)
        f = lambda t: P.iid_spin_tilt(J(t1), J(t2), t[0], t[1]) + P.independent_spin_tilt(J(t1), J(t2), t[0], t[2], t[1], t[3]) + P.default_spin_tilt(J(t1), J(t2), t[0], t[1])
        return f, [r.uniform(0.05, 0.95), r.uniform(0.3, 3), r.uniform(0.05, 0.95), r.uniform(0.3, 3)]
    if w == "soft truncation":
        x = np.concatenate([r.uniform(1, 150, n - 4), [mmax * 3, mmax * 6, 0.5, 0.01]])
        f = lambda t: D.powerlaw_logit_pdf(J(x), t[0], low=t[1], high=t[2], low_fall_off=t[3], high_fall_off=t[4]) + 1e-3 * D.log_logistic_unit(J(x), t[1], sgn=-1, sc=t[3])
        return f, [al, mmin, mmax, 4.0, 4.0]
    if w == "power law density":
        x = off(np.concatenate([mass_samples(r, n, mmin, mmax), [0.0, -1.0, 1e-6, 1e4]]), [mmin, mmax])
        return (lambda t: D.powerlaw_pdf(J(x), t[0], t[1], t[2])), [r.choice([al, -1.0, 0.0, 1.0]), mmin, mmax]
    if w == "normal densities":
        lo, hi, mu = -1.0 + r.random(), 2.0 + 2 * r.random(), float(cast(1.5 + 0.3 * r.random()))
        x = at(off(r.uniform(-3, 6, n), [lo, hi]), mu, mu)
        k = at(off(np.exp(r.uniform(-3, 3, n)), [0.2, 9.0]), float(np.exp(mu)), 0.0, -1.0)
        f = lambda t: D.truncnorm_pdf(J(x), t[0], t[1], t[2], t[3]) + D.truncnorm_pdf(J(k), t[0], t[1], t[4], t[5], log=True)
        return f, [mu, r.uniform(0.3, 2), lo, hi, 0.2, 9.0]
    if w == "beta density":
        sc = r.choice([1.0, 0.7, 3.0])
        x = at(off(r.uniform(-0.3, 1.2, n) * sc, [sc]), 0.0, float(cast(sc)), 0.0)
        return (lambda t: D.betadist(J(x), t[0], t[1], scale=sc)), list(r.uniform(1.1, 6, 2))
    raise KeyError(w)


def coefs(r, n, amp):
    """coefficients: random, and the flat ones at which a sampler or an optimiser starts"""
    k = r.integers(0, 6)
    if k == 0:
        return np.zeros(n)
    if k == 1:
        return np.full(n, amp)
    if k == 2:
        return amp * np.linspace(-1, 1, n)
    return amp * r.standard_normal(n)


def spline_case(c, r):
    w, amp = c["which"], c["amp"]
    n1, n2 = int(r.integers(4, 10)), int(r.integers(4, 10))
    pe = bool(r.integers(0, 2))
    sh = {True: (4, 12), False: (48,)}
    u = lambda lo, hi: {p: r.uniform(lo, hi, s) for p, s in sh.items()}
    mmin, mmax = 4.0, 80.0
    if w in ("spin magnitude", "spin tilt", "mass", "mass ratio"):
        cls = {"spin magnitude": B.BSplineSpinMagnitude, "spin tilt": B.BSplineSpinTilt, "mass": B.BSplineMass, "mass ratio": B.BSplineRatio}[w]
        x = u(-1.2, 1.2) if w != "mass" else u(1.0, 130.0)
        x = {p: at(v, *([0.0, 1.0, -1.0] if w != "mass" else [2.0, 100.0, 3.0])) for p, v in x.items()}
        m = cls(n1, J(x[True]), J(x[False]))
        return (lambda t: m(t, pe_samples=pe)), coefs(r, n1, amp)
    if w == "independent spins":
        x1, x2 = ({p: at(v, *e) for p, v in u(-0.1, 1.1).items()} for e in ([0.0, 1.0, 0.4, 0.0], [0.0, 0.2, 1.0, 1.0]))
        m = S.BSplineIndependentSpinMagnitudes(n1, n2, J(x1[True]), J(x2[True]), J(x1[False]), J(x2[False]))
        return (lambda t: m(t[:n1], t[n1:], pe_samples=pe)), np.concatenate([coefs(r, n1, amp), coefs(r, n2, amp)])
    m1, q = u(2.0, 100.0), u(0.03, 1.1)
    m1, q = {p: at(v, mmin, mmax) for p, v in m1.items()}, {p: at(v, 0.9, 0.5, 1.0) for p, v in q.items()}
    beta = r.choice([r.uniform(-0.7, 4), -1.0], p=[0.8, 0.2])
    if w == "spline masses":
        m = S.BSplinePrimaryBSplineRatio(n1, n2, J(m1[True]), J(m1[False]), J(q[True]), J(q[False]), mmax=mmax, m1min=mmin, m2min=mmin)
        return (lambda t: m(t[:n1], t[n1:], pe_samples=pe)), np.concatenate([coefs(r, n1, amp), coefs(r, n2, amp)])
    if w == "spline mass, power law ratio":
        m = S.BSplinePrimaryPowerlawRatio(n1, J(m1[True]), J(m1[False]), mmin=mmin, mmax=mmax)
        qq = off_ratio(q[pe], m1[pe], mmin)
        return (lambda t: m(J(m1[pe]), J(qq), t[0], mmin, t[1:], pe_samples=pe)), np.concatenate([[beta], coefs(r, n1, amp)])
    if w == "component masses":
        m2 = {p: np.maximum(m1[p] * q[p], 1.0) for p in sh}
        m = S.BSplineIIDComponentMasses(n1, J(m1[True]), J(m2[True]), J(m1[False]), J(m2[False]), mmin=mmin, mmax=mmax)
        return (lambda t: m(t[1:], beta=t[0], pe_samples=pe)), np.concatenate([[beta], coefs(r, n1, amp)])
    if w == "perturbed power law":
        m = SP.PowerlawBasisSplinePrimaryPowerlawRatio(n1, J(m1[True]), J(m1[False]), mmin=mmin, m2min=mmin, mmax=mmax)
        qq = off_ratio(q[pe], m1[pe], mmin)
        return (lambda t: m(J(m1[pe]), J(qq), alpha=t[0], beta=t[1], mmin=mmin, mmax=mmax, cs=t[2:])), np.concatenate([[r.choice([r.uniform(1.3, 4), 1.0], p=[0.8, 0.2]), beta], coefs(r, n1, amp)])
    z = {p: at(v, 1.85, 0.005) for p, v in u(0.01, 1.8).items()}
    if w == "power law redshift":
        m = P.PowerlawRedshiftModel(J(z[True]), J(z[False]))
        return (lambda t: m(J(z[pe]), t[0])), [r.uniform(-3, 6)]
    if w == "perturbed redshift":
        m = SP.PowerlawSplineRedshiftModel(n1, J(z[True]), J(z[False]))
        return (lambda t: m(J(z[pe]), t[0], t[1:])), np.concatenate([[r.uniform(-3, 6)], coefs(r, n1, amp)])
    if w == "spline redshift":
        m = B.BSplineRedshift(n1, J(z[True]), J(z[False]), J(1 + 0 * z[True]), J(1 + 0 * z[False]))
        return (lambda t: m(t, pe_samples=pe)), coefs(r, n1, amp)
    raise KeyError(w)


def prior_case(c, r):
    w = c["which"]
    if w == "difference penalty":
        n, d = int(r.integers(5, 12)), int(r.integers(1, 3))
        return (lambda t: jnp.atleast_1d(apply_difference_prior(t[1:], jnp.exp(t[0]), d))), np.concatenate([[r.uniform(-1, 3)], coefs(r, n, 1.0)])
    if w == "power law distribution":
        x = np.concatenate([r.uniform(3.1, 49, 20), [2.0, 60.0]])
        ins = (x > 3) & (x < 50)  # log densities outside are a constant
        return (lambda t: jnp.where(J(ins), N.Powerlaw(t[0], minimum=t[1], maximum=t[2], low=1.0, high=100.0).log_prob(J(x)), 0.0)), [r.choice([r.uniform(-4, -1.3), r.uniform(-0.7, 3), -1.0, 0.0]), 3.0, 50.0]
    if w == "broken power law distribution":
        x = off(r.uniform(3.0, 90, 20), [6.0, 45.0], 0.02)
        return (lambda t: N.PowerlawSmoothedPowerlaw(t[0], t[1], t[2], t[3], t[4], 2.5, 95.0).log_prob(J(x))), [r.uniform(-4, -1.3), 6.0, 45.0, r.uniform(2, 8), r.uniform(0.5, 5)]
    if w == "spline distribution":
        n = int(r.integers(4, 10))
        g = np.linspace(-1, 2, 120)
        dm = np.exp(-0.5 * ((g[None, :] - np.linspace(-1, 2, n)[:, None]) / 0.6) ** 2)
        x = r.uniform(-0.9, 1.9, 15)
        return (lambda t: N.BSplineDistribution(-1.0, 2.0, t, J(g), J(dm)).log_prob(J(x))), coefs(r, n, 1.0)
    if w == "redshift distribution":
        z, g = r.uniform(0.02, 2.4, 20), np.linspace(1e-3, 2.0, 300)
        ins = z < 1.99  # log densities outside are a constant
        dv = 4e-1 * g**2 / (1 + g) ** 2
        return (lambda t: jnp.where(J(ins), N.PowerlawRedshift(t[0], 2.0, J(g), J(dv)).log_prob(J(z)), 0.0)), [r.uniform(-3, 6)]
    raise KeyError(w)


PAR = ["power law masses", "power law masses with falloff", "power law and peak", "tapered power law and peak", "spin magnitudes", "spin tilts", "soft truncation", "power law density", "normal densities", "beta density"]
SPL = ["spin magnitude", "spin tilt", "mass", "mass ratio", "independent spins", "spline masses", "spline mass, power law ratio", "component masses", "perturbed power law", "power law redshift", "perturbed redshift", "spline redshift"]
PRI = ["difference penalty", "power law distribution", "broken power law distribution", "redshift distribution", "spline distribution"]


def verify(c, case):
    r = rng(c["s"])
    f, th = case(c, r)
    th = cast(th)
    y = arr(f(J(th)), c["which"])
    require(np.all(np.isfinite(y)), f"{c['which']}: not finite", y=y)
    wts = J(r.uniform(0.5, 1.5, y.shape))
    L = lambda t: jnp.sum(wts * f(t))
    g = arr(jax.jit(jax.grad(L))(J(th)) if c["jit"] else jax.grad(L)(J(th)), "gradient", th.shape)
    require(np.all(np.isfinite(g)), f"{c['which']}: gradient is not finite", theta=th, gradient=g)
    if is_x64():
        F = jax.jit(L)
        h = 1e-5 * np.maximum(1.0, np.abs(th))
        fd = np.array([(float(F(J(th + h * e))) - float(F(J(th - h * e)))) / (2 * h[i]) for i, e in enumerate(np.eye(len(th)))])
        scale = float(np.sum(np.abs(y)))
        close(g, fd, f"{c['which']}: gradient against finite differences", rtol=2e-4, atol=1e-6 * scale + 1e-9)
    return c["which"]


@sub(fdict(which=st.sampled_from(PAR), s=seeds, jit=st.booleans()), quick=60, thorough=3000, modes=("x64", "f32"), split=3, corpus=[dict(which=w, s=i, jit=False) for i, w in enumerate(PAR)])
def parametric_models(c):
    return verify(c, parametric_case)


@sub(fdict(which=st.sampled_from(SPL), s=seeds, jit=st.booleans(), amp=reals(0.1, 1.5)), quick=24, thorough=1500, modes=("x64", "f32"), split=4, corpus=[dict(which=w, s=i, jit=True, amp=1.0) for i, w in enumerate(SPL)])
def spline_models(c):
    return verify(c, spline_case)


@sub(fdict(which=st.sampled_from(PRI), s=seeds, jit=st.booleans()), quick=24, thorough=1000, modes=("x64", "f32"), split=2, corpus=[dict(which=w, s=i, jit=True) for i, w in enumerate(PRI)])
def priors(c):
    return verify(c, prior_case)


@sub(fdict(use=C.USE, iid=st.booleans(), s=seeds, kw=st.sampled_from([dict(min_neff_cut=False), dict(min_neff_cut=False, marginalize_selection=True)]), nobs=st.integers(1, 4), top=st.just("bare")), quick=16, thorough=240, modes=("x64", "f32"), split=4)
def configured_analysis(c):
    """gradient of the whole log posterior of an analysis described by a configuration file, with respect to everything it samples"""
    kw = dict(c["kw"], posterior_predictive_check=False)
    model, dens, sites, hyper, r = C.build(dict(c, kw=kw), c["s"], "g")
    samps, injs = C.catalogue(r, (c["nobs"], 60)), C.catalogue(r, (800,))
    vals = {k: J(cast(v[0])) for k, v in sites.items()}
    if "redshift" in dens:
        vals["unscaled_rate"] = J(cast(2.5))
    # points of the simplex move along its surface
    names = [k for k in sorted(vals)]
    if not names:
        return None
    sizes = [int(np.size(vals[k])) for k in names]
    th0 = np.concatenate([np.log(np.atleast_1d(vals[k])) if k.endswith("_probs") else np.atleast_1d(vals[k]) for k in names])

    def unpack(t):
        out, i = {}, 0
        for k, n in zip(names, sizes):
            out[k] = jax.nn.softmax(t[i : i + n]) if k.endswith("_probs") else t[i]
            i += n
        return out

    args = ({k: J(v) for k, v in samps.items()}, {k: J(v) for k, v in injs.items()}, 20000, c["nobs"], 0.7)
    L = jax.jit(lambda t: log_density(handlers.seed(model, jax.random.PRNGKey(1)), args, {}, unpack(t))[0])
    v = float(L(J(th0)))
    if not np.isfinite(v):
        return None
    g = arr(jax.jit(jax.grad(L))(J(th0)), "gradient", th0.shape)
    require(np.all(np.isfinite(g)), "the gradient of the log posterior is not finite", names=names, gradient=g, theta=th0)
    if is_x64():
        h = 1e-6 * np.maximum(1.0, np.abs(th0))
        fd = np.array([(float(L(J(th0 + h * e))) - float(L(J(th0 - h * e)))) / (2 * h[i]) for i, e in enumerate(np.eye(len(th0)))])
        close(g, fd, "gradient of the log posterior against finite differences", rtol=1e-3, atol=1e-5 * (1 + abs(v)), names=names)
    return f"{len(names)} parameters"
