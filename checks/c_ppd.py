"""P27: population distributions computed from a posterior."""

import numpy as np
from checks_ref import beta_ref, powerlaw_ref, trapz, truncnorm_ref
from gens import fdict, reals, rng, seeds
from harness import arr, cast, close, fnum, require, sub, tol
from hypothesis import strategies as st
from model_ref import Curve

import jax.numpy as jnp

from gwinferno.models.parametric.parametric import PowerlawRedshiftModel
from gwinferno.models.spline_perturbation import PowerlawSplineRedshiftModel
from gwinferno.postprocess import calculations as C

J = jnp.asarray
RATES = st.sampled_from(["none", "rate", "frac", "both"])


def scales(c, r, n):
    rate, frac = cast(np.exp(r.uniform(-2, 5, n))), cast(r.uniform(0.05, 1, n))
    kw, tot = {}, np.ones(n)
    if c["rates"] in ("rate", "both"):
        kw["rate"], tot = J(rate), tot * rate
    if c["rates"] in ("frac", "both"):
        kw["pop_frac"], tot = J(frac), tot * frac
    return kw, tot


def curve(got, x, want, tot, what, rt=5e-3):
    """rows of got: densities on x with integrals tot, proportional to want"""
    got, x = arr(got, what, want.shape), np.asarray(x, float)
    require(np.all(np.isfinite(got)) and np.all(got >= 0), f"{what}: negative or not finite")
    for i in range(len(got)):
        close(trapz(got[i], x), tot[i], f"{what}: integral is rate times fraction", rtol=tol(1e-6, 1e-3))
        w = want[i] / trapz(want[i], x) * tot[i]
        close(got[i, 1:-1], w[1:-1], f"{what}: draw {i}", rtol=rt, atol=rt * np.max(w))


def marginals(p_mq, M, Q, ms, qs, mmin):
    p = np.where(Q > mmin / M, p_mq, 0.0)
    return trapz(p, qs, axis=0), trapz(p, ms, axis=1)


MASS = dict(draws=st.integers(1, 3), mmin=reals(2.5, 8.0), mmax=reals(50.0, 110.0), s=seeds, rates=RATES)


def grid(c, got_ms, got_qs):
    mmin, mmax = fnum(c["mmin"]), fnum(c["mmax"])
    ms, qs = np.linspace(mmin, mmax, len(got_ms)), np.linspace(mmin / mmax, 1, len(got_qs))
    close(got_ms, ms, "mass grid", rtol=1e-5)
    close(got_qs, qs, "mass ratio grid", rtol=1e-5)
    require(len(ms) > 100 and len(qs) > 100, "resolution of the grids")
    return ms, qs, *np.meshgrid(ms, qs)


@sub(
    fdict(nm=st.integers(5, 9), nq=st.integers(4, 8), amp=reals(0.1, 1.5), **MASS), quick=4, thorough=200, modes=("x64", "f32"), split=4,
    corpus=[dict(nm=7, nq=5, amp=1.0, draws=2, mmin=5.0, mmax=100.0, s=1, rates="both"), dict(nm=6, nq=6, amp=1.0, draws=2, mmin=3.0, mmax=80.0, s=2, rates="none"), dict(nm=12, nq=10, amp=0.5, draws=8, mmin=5.0, mmax=100.0, s=3, rates="both")],
)
def spline_masses(c):
    r = rng(c["s"])
    n = c["draws"]
    cm, cq = cast(c["amp"] * r.standard_normal((n, c["nm"]))), cast(c["amp"] * r.standard_normal((n, c["nq"])))
    kw, tot = scales(c, r, n)
    pm, ms, pq, qs = C.calculate_bspline_mass_ppds(J(cm), J(cq), dict(m1=c["nm"], q=c["nq"]), c["mmin"], c["mmax"], **kw)
    ms, qs, M, Q = grid(c, arr(ms), arr(qs))
    mmin, mmax = ms[0], ms[-1]
    rm, rq = Curve("LogXLogY", c["nm"], 4, mmin, mmax), Curve("LogY", c["nq"], 4, mmin / mmax, 1.0)
    w = [marginals(np.outer(rq.g(qs, b), rm.g(ms, a)), M, Q, ms, qs, mmin) for a, b in zip(cm, cq)]
    curve(pm, ms, np.array([v[0] for v in w]), tot, "spline primary mass", tol(5e-3, 2e-2))
    curve(pq, qs, np.array([v[1] for v in w]), tot, "spline mass ratio", tol(5e-3, 2e-2))
    return c["rates"]


@sub(
    fdict(p=st.fixed_dictionaries(dict(alpha=reals(-4.5, -0.5), beta=reals(-1.5, 4.0), mu=reals(20.0, 45.0), sig=reals(2.0, 10.0), lam=reals(0.0, 1.0))), **MASS), quick=9, thorough=300, modes=("x64", "f32"), split=3,
    corpus=[
        dict(p=dict(alpha=-2.5, beta=1.2, mu=35.0, sig=4.0, lam=0.2), draws=3, mmin=5.0, mmax=90.0, s=3, rates="both"),
        dict(p=dict(alpha=-2.5, beta=-1.2, mu=35.0, sig=4.0, lam=0.2), draws=1, mmin=3.98, mmax=50.0, s=3, rates="none"),
        dict(p=dict(alpha=-2.5, beta=-1.2, mu=35.0, sig=4.0, lam=0.2), draws=1, mmin=5.39, mmax=50.0, s=3, rates="none"),
        dict(p=dict(alpha=-2.5, beta=1.2, mu=35.0, sig=4.0, lam=0.2), draws=10, mmin=5.0, mmax=90.0, s=4, rates="both"),
    ],
)
def power_law_peak_masses(c):
    r = rng(c["s"])
    n, p = c["draws"], c["p"]
    v = {k: cast(x * (1 + 0.1 * r.random(n)) if k != "lam" else np.clip(x * (0.8 + 0.2 * r.random(n)), 0, 1)) for k, x in p.items()}
    kw, tot = scales(c, r, n)
    pm, ms, pq, qs = C.calculate_powerlaw_peak_mass_ppds(J(v["alpha"]), J(v["beta"]), J(v["mu"]), J(v["sig"]), J(v["lam"]), c["mmin"], c["mmax"], **kw)
    ms, qs, M, Q = grid(c, arr(ms), arr(qs))
    mmin, mmax = ms[0], ms[-1]
    ws = []
    for i in range(n):
        a = {k: x[i] for k, x in v.items()}
        pmq = ((1 - a["lam"]) * powerlaw_ref(M, a["alpha"], mmin, mmax) + a["lam"] * truncnorm_ref(M, a["mu"], a["sig"], mmin, mmax)) * np.where(Q > mmin / M, powerlaw_ref(np.maximum(Q, mmin / M), a["beta"], np.minimum(mmin / M, 1 - 1e-9), 1.0), 0)
        ws.append(marginals(pmq, M, Q, ms, qs, mmin))
    curve(pm, ms, np.array([w[0] for w in ws]), tot, "power law plus peak primary mass", tol(1e-2, 3e-2))
    curve(pq, qs, np.array([w[1] for w in ws]), tot, "power law plus peak mass ratio", tol(1e-2, 3e-2))
    return c["rates"]


@sub(
    fdict(mu=reals(2.3, 4.0), sig=reals(0.1, 0.6), nq=st.integers(4, 8), amp=reals(0.1, 1.5), **MASS), quick=4, thorough=200, modes=("x64", "f32"), split=4,
    corpus=[dict(mu=3.0, sig=0.3, nq=6, amp=1.0, draws=2, mmin=5.0, mmax=90.0, s=4, rates="both"), dict(mu=3.4, sig=0.3, nq=10, amp=0.5, draws=8, mmin=5.0, mmax=90.0, s=5, rates="both")],
)
def log_peak_masses(c):
    r = rng(c["s"])
    n = c["draws"]
    mu, sg, cq = cast(c["mu"] * (1 + 0.05 * r.random(n))), cast(c["sig"] * (1 + 0.2 * r.random(n))), cast(c["amp"] * r.standard_normal((n, c["nq"])))
    kw, tot = scales(c, r, n)
    pm, ms, pq, qs = C.calculate_peak_logm1_bspline_q_ppds(J(mu), J(sg), J(cq), dict(q=c["nq"]), c["mmin"], c["mmax"], **kw)
    ms, qs, M, Q = grid(c, arr(ms), arr(qs))
    mmin, mmax = ms[0], ms[-1]
    rq = Curve("LogY", c["nq"], 4, mmin / mmax, 1.0)
    # a normal density in log mass
    w = [marginals(np.outer(rq.g(qs, cq[i]), np.exp(-0.5 * ((np.log(ms) - mu[i]) / sg[i]) ** 2) / ms), M, Q, ms, qs, mmin) for i in range(n)]
    curve(pm, ms, np.array([v[0] for v in w]), tot, "log-normal primary mass", tol(1e-2, 3e-2))
    curve(pq, qs, np.array([v[1] for v in w]), tot, "mass ratio with a log-normal primary", tol(1e-2, 3e-2))
    return c["rates"]


@sub(
    fdict(draws=st.integers(1, 4), n=st.lists(st.integers(4, 12), min_size=4, max_size=4), amp=reals(0.1, 2.0), iid=st.booleans(), s=seeds, rates=RATES), quick=14, thorough=800, modes=("x64", "f32"), split=2,
    corpus=[dict(draws=3, n=[5, 7, 9, 6], amp=1.0, iid=i, s=1, rates="both") for i in (True, False)] + [dict(draws=n, n=[16, 18, 20, 12], amp=1.0, iid=False, s=2, rates="both") for n in (40, 1100)],
)
def spline_spins(c):
    r = rng(c["s"])
    m = c["draws"]
    cs = [cast(c["amp"] * r.standard_normal((m, n))) for n in c["n"]]
    kw, tot = scales(c, r, m)
    R = lambda n, lo: Curve("LogY", n, 4, lo, 1.0)
    if c["iid"]:
        out = C.calculate_bspline_spin_ppds(J(cs[0]), J(cs[1]), dict(a=c["n"][0], tilt=c["n"][1]), **kw)
        require(len(out) == 4, "number of results", got=len(out))
        pa, aa, pt, ct = out
        parts = [(pa, aa, cs[0], 0.0, "spin magnitude"), (pt, ct, cs[1], -1.0, "spin tilt")]
    else:
        nd = dict(a1=c["n"][0], tilt1=c["n"][1], a2=c["n"][2], tilt2=c["n"][3])
        out = C.calculate_bspline_spin_ppds(J(cs[0]), J(cs[1]), nd, a2_cs=J(cs[2]), tilt2_cs=J(cs[3]), **kw)
        require(len(out) == 6, "number of results", got=len(out))
        a1, a2, aa, t1, t2, ct = out
        parts = [(a1, aa, cs[0], 0.0, "primary spin magnitude"), (t1, ct, cs[1], -1.0, "primary tilt"), (a2, aa, cs[2], 0.0, "secondary spin magnitude"), (t2, ct, cs[3], -1.0, "secondary tilt")]
    for p, x, k, lo, what in parts:
        x = arr(x)
        close([x[0], x[-1]], [lo, 1.0], f"{what}: range")
        ref = R(k.shape[1], lo)
        curve(p, x, np.array([ref.g(np.clip(x, lo, 1.0), v) for v in k]), tot, what, tol(1e-4, 5e-3))
    return f"{'iid' if c['iid'] else 'independent'}, {c['rates']}"


@sub(
    fdict(draws=st.integers(1, 4), a=reals(1.0, 8.0), b=reals(1.0, 8.0), amax=st.sampled_from([1, 1.0, 0.8, 0.99]), sig=reals(0.2, 3.0), lam=reals(0.0, 1.0, special=[0.0, 1.0]), s=seeds, rates=RATES, default=st.booleans()),
    quick=40, thorough=1500, modes=("x64", "f32"), split=2,
    corpus=[dict(draws=n, a=2.0, b=5.0, amax=1.0, sig=0.7, lam=0.6, s=3, rates=t, default=False) for n, t in ((40, "both"), (1500, "both"), (1500, "frac"))],
)
def parametric_spins(c):
    r = rng(c["s"])
    n = c["draws"]
    a, b = cast(c["a"] * (1 + 0.3 * r.random(n))), cast(c["b"] * (1 + 0.3 * r.random(n)))
    sg, lm = cast(c["sig"] * (1 + 0.3 * r.random(n))), cast(np.clip(c["lam"] * (0.5 + 0.5 * r.random(n)) if 0 < c["lam"] < 1 else np.full(n, c["lam"]), 0, 1))
    kw, tot = scales(c, r, n)
    amax = 1 if c["default"] else c["amax"]
    p, x = C.calculate_beta_spin_mag(J(a), J(b), **({} if c["default"] else dict(amax=amax)), **kw)
    x = arr(x)
    close([x[0], x[-1]], [0.0, amax], "range of magnitudes")
    curve(p, x, np.array([beta_ref(np.clip(x, 0, fnum(amax)), a[i], b[i], fnum(amax)) for i in range(n)]), tot, "beta spin magnitude", tol(1e-4, 5e-3))
    p, x = C.calculate_mixture_iso_aligned_spin_tilt(J(sg), J(lm), **kw)
    x = arr(x)
    close([x[0], x[-1]], [-1.0, 1.0], "range of tilts")
    curve(p, x, np.array([(1 - lm[i]) / 2 + lm[i] * truncnorm_ref(np.clip(x, -1, 1), 1, sg[i], -1, 1) for i in range(n)]), tot, "isotropic and aligned tilts", tol(1e-4, 5e-3))
    return c["rates"]


@sub(
    fdict(draws=st.integers(1, 4), lamb=reals(-4.0, 8.0), n=st.integers(5, 12), amp=reals(0.1, 1.5), frac=st.booleans(), s=seeds), quick=40, thorough=1000, modes=("x64", "f32"), split=2,
    corpus=[dict(draws=3, lamb=2.7, n=8, amp=1.0, frac=f, s=1) for f in (True, False)] + [dict(draws=n, lamb=1.0, n=20, amp=0.5, frac=True, s=2) for n in (40, 1100)],
)
def merger_rates(c):
    """the rate density at every redshift is the local rate times (1+z)^lambda, modulated by the spline"""
    r = rng(c["s"])
    n = c["draws"]
    z1, z2 = cast(np.exp(r.uniform(np.log(0.02), np.log(1.2), (2, 10)))), cast(np.exp(r.uniform(np.log(0.01), np.log(2.0), 40)))
    la, rate, fr = cast(c["lamb"] + r.random(n)), cast(np.exp(r.uniform(0, 5, n))), cast(r.uniform(0.05, 1, n))
    kw, tot = (dict(pop_frac=J(fr)), rate * fr) if c["frac"] else ({}, rate)
    model = PowerlawRedshiftModel(J(z1), J(z2))
    rs, zs = C.calculate_powerlaw_rate_of_z_ppds(J(la), J(rate), model, **kw)
    zs = arr(zs)
    lo, hi = max(z1.min(), z2.min()), min(z1.max(), z2.max())
    close([zs[0], zs[-1]], [lo, hi], "redshift range", rtol=1e-5)
    require(np.all(np.diff(zs) > 0), "redshifts increase")
    pl = tot[:, None] * (1 + zs) ** la[:, None]
    close(arr(rs, "rates", pl.shape), pl, "power-law merger rate", rtol=tol(1e-9, 1e-5))
    cs = cast(c["amp"] * r.standard_normal((n, c["n"] - 1)))
    model = PowerlawSplineRedshiftModel(c["n"], J(z1), J(z2))
    rs, zs2 = C.calculate_powerlaw_spline_rate_of_z_ppds(J(la), J(cs), J(rate), model, **kw)
    close(zs2, zs, "redshifts", rtol=1e-6)
    ref = Curve("LogX", c["n"], 4, lo, hi)
    e = slice(2, -2)  # rounding decides whether the ends are inside the range of the logarithm
    pert = np.exp(np.array([ref.spline(np.clip(zs[e], lo, hi), np.concatenate([[0.0], v])) for v in cs]))
    close(arr(rs, "rates", pl.shape)[:, e], pl[:, e] * pert, "spline merger rate", rtol=tol(1e-6, 5e-3))
    return "with fractions" if c["frac"] else "all"
