"""P06: numpyro distributions."""

import numpy as np
from checks_ref import cumtrapz, trapz
from cosmo_ref import Ref
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import arr, cast, close, finite, fnum, require, sub, tol
from hypothesis import strategies as st

import jax
import jax.numpy as jnp

from gwinferno import numpyro_distributions as N

GX, GW = np.polynomial.legendre.leggauss(48)


def ks(samples, cdf, what):
    """Kolmogorov-Smirnov distance of many draws; the bound has probability ~1e-8 of being exceeded by chance"""
    x = np.sort(np.ravel(samples))
    n = len(x)
    F = cdf(x)
    d = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
    require(d * np.sqrt(n) < 3.1, f"{what}: samples do not follow the distribution", ks=d * np.sqrt(n), n=n)


def sampled(dist, key, lo, hi, cdf, what, batch=()):
    n = 2000
    x = arr(dist.sample(jax.random.PRNGKey(key), (n,)), "samples", (n,) + tuple(batch))
    finite(x, f"{what} samples")
    e = tol(1e-9, 2e-6) * (1 + np.abs(hi) + np.abs(lo))
    require(np.all(x >= lo - e) and np.all(x <= hi + e), f"{what}: samples outside the support", lo=x.min(), hi=x.max())
    if batch == ():
        ks(x, cdf, what)
    y = arr(dist.sample(jax.random.PRNGKey(key), (n,)))
    require(np.array_equal(x, y), f"{what}: the same key gives two different samples")
    z = arr(dist.sample(jax.random.PRNGKey(key + 1), (n,)))
    require(not np.array_equal(x, z), f"{what}: different keys give the same samples")
    return x


def again(dist, x, what):
    """the same object asked about the same points in another order, and about fewer of them, answers as before"""
    for f in ("log_prob", "cdf", "icdf"):
        if f not in type(dist).__dict__:
            continue
        v = x if f != "icdf" else cast(0.05 + 0.9 * np.arange(len(x)) / len(x))
        one = arr(getattr(dist, f)(jnp.asarray(v)), f, v.shape)
        close(arr(getattr(dist, f)(jnp.asarray(v[::-1])), f, v.shape)[::-1], one, f"{what}: {f} of the same points in reverse order", rtol=tol(1e-12, 1e-6), atol=tol(1e-12, 1e-6))
        close(arr(getattr(dist, f)(jnp.asarray(v[2:]))), one[2:], f"{what}: {f} of some of the points", rtol=tol(1e-12, 1e-6), atol=tol(1e-12, 1e-6))


def support(dist, lo, hi, what):
    """the declared support is [lo, hi]: this is where numpyro samples the parameter"""
    w = hi - lo
    x = cast([lo + 0.01 * w, lo + 0.5 * w, hi - 0.01 * w, lo - 0.01 * w, hi + 0.01 * w])
    got = arr(dist.support(jnp.asarray(x)), "support", (5,)).astype(bool)
    require(list(got) == [True] * 3 + [False] * 2, f"{what}: declared support", x=x, got=got)


@sub(
    fdict(kind=st.sampled_from(["sine", "cosine"]), a=reals(0.0, 0.9, special=[0.0]), w=reals(0.05, 1.0, special=[1.0]), key=st.integers(0, 1000), u=st.lists(reals(0.02, 0.98), min_size=5, max_size=5), default=st.booleans(), batch=st.booleans()),
    quick=120, thorough=4000, modes=("x64", "f32"),
)
def trigonometric(c):
    """sine / cosine densities on any sub-interval"""
    off = 0.0 if c["kind"] == "sine" else -np.pi / 2
    lo = fnum(off + np.pi * c["a"])
    hi = fnum(min(off + np.pi * (c["a"] + c["w"]), np.pi + off))
    if hi - lo < 0.02:
        return None
    cls = N.Sine if c["kind"] == "sine" else N.Cosine
    if c["default"]:
        lo, hi = fnum(off), fnum(np.pi + off)
        d = cls()
    else:
        d = cls(minimum=lo, maximum=hi)
    F = (lambda v: np.cos(lo) - np.cos(v)) if c["kind"] == "sine" else (lambda v: np.sin(v) - np.sin(lo))
    f = np.sin if c["kind"] == "sine" else np.cos
    support(d, lo, hi, c["kind"])
    tot = F(hi)
    if tot < 1e-3:
        return None
    x = cast(lo + (hi - lo) * np.array(c["u"]))
    at = tol(1e-9, 1e-5 / tot)
    close(arr(d.log_prob(jnp.asarray(x)), "log_prob", x.shape), np.log(f(x) / tot), "log density", rtol=tol(1e-9, 1e-5), atol=tol(1e-9, 1e-4 / tot))
    again(d, x, c["kind"])
    xs = cast(lo + (hi - lo) * (GX + 1) / 2)
    close(np.sum(GW * np.exp(arr(d.log_prob(jnp.asarray(xs))))) * (hi - lo) / 2, 1.0, "total probability", rtol=tol(1e-9, 1e-4) + at)
    close(arr(d.cdf(jnp.asarray(x)), "cdf", x.shape), F(x) / tot, "cdf", atol=at)
    close(arr(d.icdf(jnp.asarray(cast(F(x) / tot)))), x, "quantile at a probability", atol=tol(1e-7, 2e-3 / tot))
    out = arr(d.cdf(jnp.asarray([lo - 0.3, hi + 0.3])), "cdf", (2,))
    require(out[0] == 0 and out[1] == 1, "cdf outside the support", out=out)
    sampled(d, c["key"], lo, hi, lambda v: np.clip(F(v) / tot, 0, 1), c["kind"])
    if c["batch"]:
        los, his = cast([lo, lo]), cast([hi, lo + (hi - lo) * 0.7])
        b = cls(minimum=jnp.asarray(los), maximum=jnp.asarray(his))
        require(tuple(b.batch_shape) == (2,), "batch shape", got=b.batch_shape)
        g = arr(b.log_prob(jnp.asarray(x[:1])), "batched log_prob", (2,)) if x[0] < his[1] else None
        if g is not None:
            tots = [F(his[0]), F(his[1])]
            close(g, np.log(f(x[0]) / np.array(tots)), "batched log density", rtol=tol(1e-9, 1e-5), atol=tol(1e-9, 1e-3 / min(tots)))
        sampled(b, c["key"], lo, hi, None, c["kind"], batch=(2,))
    return c["kind"]


@sub(
    fdict(alpha=reals(-6.0, 6.0, special=[-1.0, 0.0, 1.0, -1.04, -0.96, -1.01, -0.995, -0.85]), lo=st.one_of(logreals(1e-2, 20.0), st.just(0.0)), ratio=logreals(1.3, 100.0), key=st.integers(0, 1000), u=st.lists(reals(0.0, 1.0), min_size=5, max_size=5), batch=st.booleans()),
    quick=120, thorough=4000, modes=("x64", "f32"),
    corpus=[dict(alpha=-1.0, lo=1.0, ratio=50.0, key=1, u=[0.0, 0.5, 1.0, 0.2, 0.7], batch=True)],
)
def power_law(c):
    a = fnum(c["alpha"])
    lo = fnum(c["lo"])
    if a <= tol(-0.9, -0.7) and lo == 0:
        lo = 0.5
    hi = fnum((lo if lo > 0 else 1.0) * c["ratio"])
    if 0 < abs(1 + a) < tol(1e-3, 0.1):
        return None
    k = 1 + a
    d = N.Powerlaw(jnp.asarray(a) if c["key"] % 2 else a, minimum=lo, maximum=hi, low=lo, high=hi)
    support(d, lo, hi, "power law")
    H = (lambda v: (v**k - lo**k) / (hi**k - lo**k)) if a != -1 else (lambda v: np.log(v / lo) / np.log(hi / lo))
    ln = np.log(k / (hi**k - lo**k)) if a != -1 else -np.log(np.log(hi / lo))
    u = np.clip(np.array(c["u"]), 0.001, 0.999)
    x = lo + (hi - lo) * u if lo == 0 else lo * (hi / lo) ** u
    x = cast(x)
    want = ln + a * np.log(x)
    cond = 1 + 1 / (abs(k) if a != -1 else 1)
    close(arr(d.log_prob(jnp.asarray(x)), "log_prob", x.shape), want, "power-law log density", rtol=tol(1e-9, 1e-5), atol=tol(1e-9, 1e-4) * cond, alpha=a, lo=lo, hi=hi)
    again(d, x, "power law")
    o = arr(d.log_prob(jnp.asarray(cast([hi * 1.1, lo * 0.9 if lo > 0 else -0.1]))), "log_prob", (2,))
    require(np.all(o < -1e30), "power-law density outside [minimum, maximum]", o=o)
    close(arr(d.cdf(jnp.asarray(x)), "cdf", x.shape), H(x), "power-law cdf", atol=tol(1e-9, 2e-5) * cond, alpha=a, lo=lo, hi=hi)
    o = arr(d.cdf(jnp.asarray(cast([hi * 1.1, max(lo * 0.9, 1e-3 * hi if lo == 0 else 0)]))), "cdf", (2,))
    require(o[0] == 1, "power-law cdf above the maximum", o=o)
    require(lo == 0 or o[1] == 0, "power-law cdf below the minimum", o=o)
    qs = np.array(c["u"])
    y = arr(d.icdf(jnp.asarray(cast(qs))), "icdf", qs.shape)
    finite(y, "quantiles", q=qs)
    e = tol(1e-7, 1e-4) * (hi + lo) * cond
    require(np.all(y >= lo - e) and np.all(y <= hi + e), "quantiles outside the support", y=y)
    yy = np.clip(y, lo if lo > 0 else 1e-12, hi)
    close(H(yy), qs, "cdf(icdf(q))", atol=tol(1e-6, 3e-3) * cond * (1 + abs(a)))
    if lo > 0 or a > -0.5:
        sampled(d, c["key"], lo, hi, lambda v: np.clip(H(np.maximum(v, max(lo, 1e-9))), 0, 1), "power law") if tol(True, abs(a) < 4) else None
    if c["batch"] and lo > 0:
        al = cast([a, -1.0, 2.0])
        b = N.Powerlaw(jnp.asarray(al), minimum=lo, maximum=hi, low=lo, high=hi)
        xv = cast([x[0], x[1], x[2]])
        w = [(-np.log(np.log(hi / lo)) if t == -1 else np.log((1 + t) / (hi ** (1 + t) - lo ** (1 + t)))) + t * np.log(v) for t, v in zip(al, xv)]
        close(arr(b.log_prob(jnp.asarray(xv)), "batched log_prob", (3,)), w, "batched power-law log density", rtol=tol(1e-9, 1e-5), atol=tol(1e-9, 1e-4) * cond)
        s3 = arr(b.sample(jax.random.PRNGKey(c["key"]), (7,)), "samples", (7, 3))
        require(np.all(s3 >= lo - e) and np.all(s3 <= hi + e), "batched samples outside the support")
    return "log-flat" if a == -1 else "general"


@sub(
    fdict(lamb=reals(-5.0, 8.0, special=[0.0, 1.0]), zmin=logreals(1e-3, 0.05), zmax=reals(0.2, 3.0), n=st.sampled_from([200, 400]), key=st.integers(0, 1000), u=st.lists(reals(0.0, 1.0), min_size=5, max_size=5), given=st.booleans()),
    quick=80, thorough=3000, modes=("x64", "f32"),
)
def redshift_power_law(c):
    ref = Ref([0.3065, 0.0, 67.9])
    z = cast(np.linspace(c["zmin"], c["zmax"], c["n"]))
    dv = cast(ref.dVcdz(z) / 1e9)
    lam, zmax = fnum(c["lamb"]), z[-1]
    d = N.PowerlawRedshift(lam, zmax, jnp.asarray(z), jnp.asarray(dv))
    support(d, 0.0, 1000.0, "redshift power law")
    p = dv * (1 + z) ** (lam - 1)
    norm = trapz(p, z)
    x = cast(z[0] + (z[-1] - z[0]) * np.array(c["u"]))
    dvx = np.interp(x, z, dv)
    if c["given"]:
        dvx = cast(ref.dVcdz(x) / 1e9)
        got = d.log_prob(jnp.asarray(x), dVdc=jnp.asarray(dvx))
    else:
        got = d.log_prob(jnp.asarray(x))
    close(arr(got, "log_prob", x.shape), np.log(dvx) + (lam - 1) * np.log1p(x) - np.log(norm), "redshift log density", rtol=tol(1e-9, 1e-4), atol=tol(1e-9, 1e-3))
    again(d, x, "redshift power law")
    close(trapz(np.exp(arr(d.log_prob(jnp.asarray(z)))), z), 1.0, "total probability", rtol=tol(1e-9, 1e-3))
    o = arr(d.log_prob(jnp.asarray(cast([zmax * 1.01, zmax + 1]))))
    require(np.all(o < -1e30), "redshift density above the maximum redshift", o=o)
    cdf = cumtrapz(p / norm, z)
    F = lambda v: np.interp(v, z, cdf)
    close(arr(d.cdf(jnp.asarray(x)), "cdf", x.shape), F(x), "redshift cdf", atol=tol(1e-9, 1e-4))
    close(arr(d.cdf(jnp.asarray(z[[0, -1]]))), [0.0, 1.0], "cdf at the ends", atol=tol(1e-9, 1e-5))
    q = np.clip(F(x), 0.001, 1)
    close(F(arr(d.icdf(jnp.asarray(cast(q))))), q, "cdf(icdf(q))", atol=tol(1e-9, 1e-4))
    sampled(d, c["key"], z[0], z[-1], F, "redshift power law")
    return "given volume" if c["given"] else "interpolated"


@sub(
    fdict(alpha=reals(-5.0, 3.0, special=[0.0, -1.0]), mn=reals(3.0, 12.0), mx=reals(20.0, 60.0), amax=reals(0.1, 12.0, special=[1.0]), amin=reals(0.0, 8.0, special=[0.0]), lf=reals(0.2, 0.9), hf=reals(1.1, 3.0), u=st.lists(reals(0.0, 1.0), min_size=6, max_size=6), batch=st.booleans()),
    quick=100, thorough=4000, modes=("x64", "f32"),
    corpus=[dict(alpha=a, mn=5.0, mx=35.0, amax=m, amin=n, lf=0.5, hf=2.0, u=[0.0, 0.1, 0.3, 0.5, 0.8, 1.0], batch=True) for a, m, n in ((-1.0, 4.0, 2.0), (-2.0, 1.0, 3.0), (-1.0, 1.0, 0.0))],
)
def broken_power_law(c):
    """three joined power laws: continuous, normalised on [low, high], the right slope in each segment"""
    a, mn, mx, am, an = (fnum(c[k]) for k in ("alpha", "mn", "mx", "amax", "amin"))
    low, high = fnum(mn * c["lf"]), fnum(mx * c["hf"])
    if 0 < abs(a + 1) < 0.1:
        a = -1.5
    if 0 < abs(am - 1) < 0.1:
        am = 1.5
    d = N.PowerlawSmoothedPowerlaw(a, mn, mx, am, an, low, high)

    def raw(x, a=a, mn=mn, mx=mx, am=am, an=an):
        return np.where(x < mn, (x / mn) ** an, np.where(x <= mx, (x / mn) ** a, (mx / mn) ** a * (x / mx) ** (-am)))

    def total(*pars):
        q = dict(zip(("a", "mn", "mx", "am", "an"), pars))
        tot = 0.0
        for lo, hi in ((low, q["mn"]), (q["mn"], q["mx"]), (q["mx"], high)):
            g = lo + (hi - lo) * (GX + 1) / 2
            tot += np.sum(GW * raw(g, **q)) * (hi - lo) / 2
        return tot

    tot = total(a, mn, mx, am, an)
    support(d, low, high, "smoothed power law")
    x = cast(np.concatenate([low + (high - low) * np.array(c["u"]), [mn, mx, low, high]]))  # the breaks and the ends as well
    close(arr(d.log_prob(jnp.asarray(x)), "log_prob", x.shape), np.log(raw(x) / tot), "smoothed power-law log density", rtol=tol(1e-8, 1e-4), atol=tol(1e-8, 3e-3), alpha=a, mn=mn, mx=mx, am=am, an=an, low=low, high=high)
    again(d, x, "smoothed power law")
    if c["batch"]:  # one distribution per parameter set, the singular indices among them
        sets = cast([[a, mn, mx, am, an], [-1.0, mn * 1.1, mx, am, an], [a, mn, mx * 0.9, 1.0, an + 1], [-1.0, mn, mx, 1.0, an]])
        b = N.PowerlawSmoothedPowerlaw(*(jnp.asarray(p) for p in sets.T), low, high)
        require(tuple(b.batch_shape) == (4,), "batch shape", got=b.batch_shape)
        xv = cast([x[0], x[1], x[2], x[3]])
        want = [np.log(float(raw(v, *q)) / total(*q)) for v, q in zip(xv, sets)]
        close(arr(b.log_prob(jnp.asarray(xv)), "batched log_prob", (4,)), want, "batched smoothed power-law log density", rtol=tol(1e-8, 1e-4), atol=tol(1e-8, 3e-3), sets=sets, x=xv)
    return "three segments" if np.any(x < mn) and np.any(x > mx) else "fewer"


@sub(
    fdict(s=seeds, n=st.integers(4, 12), g=st.sampled_from([100, 300]), lo=reals(-3.0, 3.0), w=reals(0.5, 20.0), scale=reals(0.0, 3.0), key=st.integers(0, 1000), u=st.lists(reals(0.0, 1.0), min_size=5, max_size=5)),
    quick=80, thorough=3000, modes=("x64", "f32"),
)
def spline_distribution(c):
    """exponentiated spline on a grid: log density, cdf and quantiles belong to one another"""
    from scipy.interpolate import BSpline

    r = rng(c["s"])
    lo, hi = fnum(c["lo"]), fnum(c["lo"] + c["w"])
    grid = cast(np.linspace(lo, hi, c["g"]))
    k = 3
    t = np.concatenate([[0.0] * k, np.linspace(0, 1, c["n"] - k + 1), [1.0] * k])
    dm = cast(np.array([BSpline(t, e, k)(np.clip((grid - lo) / (hi - lo), 0, 1 - 1e-12)) for e in np.eye(c["n"])]))
    cs = cast(c["scale"] * r.standard_normal(c["n"]))
    d = N.BSplineDistribution(lo, hi, jnp.asarray(cs), jnp.asarray(grid), jnp.asarray(dm))
    support(d, lo, hi, "spline distribution")
    lp = cs @ dm
    norm = trapz(np.exp(lp), grid)
    x = cast(lo + (hi - lo) * np.array(c["u"]))
    close(arr(d.log_prob(jnp.asarray(x)), "log_prob", x.shape), np.interp(x, grid, lp) - np.log(norm), "spline log density", rtol=tol(1e-9, 1e-4), atol=tol(1e-9, 1e-4))
    again(d, x, "spline distribution")
    close(trapz(np.exp(arr(d.log_prob(jnp.asarray(grid)))), grid), 1.0, "total probability", rtol=tol(1e-9, 1e-3))
    cdf = cumtrapz(np.exp(lp) / norm, grid)
    F = lambda v: np.interp(v, grid, cdf)
    close(arr(d.cdf(jnp.asarray(x)), "cdf", x.shape), F(x), "spline cdf", atol=tol(1e-9, 1e-4))
    q = np.clip(F(x), 1e-3, 1 - 1e-3)
    close(F(arr(d.icdf(jnp.asarray(cast(q))))), q, "cdf(icdf(q))", atol=tol(1e-9, 2e-4))
    require(tuple(d.batch_shape) == () and tuple(d.event_shape) == (), "shape of a single spline distribution", batch=d.batch_shape, event=d.event_shape)
    one = arr(d.sample(jax.random.PRNGKey(c["key"])), "a single draw", ())
    require(lo - 1e-4 * c["w"] <= one <= hi + 1e-4 * c["w"], "a single draw outside the support")
    smp = arr(d.sample(jax.random.PRNGKey(c["key"]), (300,)), "draws", (300,))
    require(np.all((smp >= lo - 1e-4 * c["w"]) & (smp <= hi + 1e-4 * c["w"])), "samples outside the support")
    ks(smp, F, "spline distribution")
    return "flat" if c["scale"] == 0 else "shaped"


@sub(
    fdict(s=seeds, n=st.integers(3, 20), tau=logreals(1e-2, 1e3), order=st.integers(1, 4), scale=logreals(0.1, 10.0), default=st.booleans()),
    quick=100, thorough=4000, modes=("x64", "f32"),
)
def smoothing_prior_distribution(c):
    r = rng(c["s"])
    order = 2 if c["default"] else c["order"]
    n = max(c["n"], order + 1)
    cs = cast(c["scale"] * r.standard_normal(n))
    kw = {} if c["default"] else dict(diff_order=order)
    d = N.PSplineCoeficientPrior(n, c["tau"], **kw)
    want = -0.5 * c["tau"] * np.sum(np.diff(cs, n=order) ** 2)
    require(tuple(d.event_shape) == (n,), "event shape", got=d.event_shape)
    close(arr(d.log_prob(jnp.asarray(cs)), "log_prob"), want, "smoothing prior", rtol=tol(1e-9, 1e-4), atol=1e-6)
    return f"order {order}"


@sub(
    fdict(s=seeds, n=st.sampled_from([2, 3, 50])),
    quick=40, thorough=1000, modes=("x64", "f32"),
)
def cumulative_trapezoid(c):
    r = rng(c["s"])
    x = cast(np.cumsum(0.01 + r.random(c["n"])) - 3)
    y = cast(r.standard_normal(c["n"]))
    close(arr(N.cumtrapz(jnp.asarray(y), jnp.asarray(x)), "cumulative integral", (c["n"] - 1,)), cumtrapz(y, x)[1:], "cumulative trapezoid integral", rtol=tol(1e-9, 1e-4), atol=tol(1e-9, 1e-4))
    return "non-uniform grid"
