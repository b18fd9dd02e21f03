"""P05: parametric mass and spin models."""

import numpy as np
import scipy.special as sp
from checks_ref import beta_ref, powerlaw_ref, smooth_ref, truncnorm_ref
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import HOW, arr, cast, close, finite, fnum, lift, require, sub, tol
from hypothesis import strategies as st

import jax
import jax.numpy as jnp

from gwinferno.models.parametric import parametric as M

GX, GW = np.polynomial.legendre.leggauss(40)
U, UW = (GX + 1) / 2, GW / 2
SH = [[5], [24], [4, 6], [1], [24], [4, 6], [40, 300]]


def mass_points(r, shape, mmin, mmax):
    n = int(np.prod(shape))
    m1 = np.exp(np.log(mmin) + np.log(mmax / mmin) * (0.01 + 0.98 * r.random(n)))
    q = mmin / m1 + (1 - mmin / m1) * (0.01 + 0.98 * r.random(n))
    kind = r.integers(0, 8, n)
    m1 = np.where(kind == 0, mmin * 0.8, np.where(kind == 1, mmax * 1.2, m1))
    q = np.where(kind == 2, mmin / m1 * 0.9, np.where(kind == 3, 1.05, np.where(kind == 4, 1.0, q)))
    return cast(m1).reshape(shape), cast(q).reshape(shape)


def supported(m1, q, mmin, mmax):
    """well inside / well outside: the boundaries themselves are decided by the last bit"""
    e = 1e-5
    return (m1 >= mmin * (1 - e)) & (m1 <= mmax * (1 + e)) & (q >= mmin / m1 * (1 - e)) & (q <= 1)


def rel(*slopes):
    return tol(1e-9, 2e-4 * (1 + max(abs(s) for s in slopes)))


BETA = reals(-6.0, 8.0, special=[0.0, -1.0, 1.0])
ALPHA = reals(-8.0, 4.0, special=[-1.0, -2.35, 0.0, -1.03, -0.98])


def q_int(f, m1, mmin, power=1):
    """integral over mass ratio at fixed primary mass, from the code's own values"""
    lo = mmin / m1[:, None]
    q = lo + (1 - lo) * U[None, :]
    return f(np.broadcast_to(m1[:, None], q.shape), q) @ UW * (1 - lo[:, 0])


def near_minus_one(*xs):
    return any(0 < abs(1 + x) < tol(1e-4, 0.05) for x in xs)


@sub(
    fdict(alpha=ALPHA, beta=BETA, mmin=reals(1.0, 10.0), mmax=reals(30.0, 120.0), s=seeds, shape=shapes(SH), how=st.sampled_from(HOW), traced=st.booleans()),
    quick=100, thorough=4000, modes=("x64", "f32"),
    corpus=[dict(alpha=-2.0, beta=-1.0, mmin=5.0, mmax=80.0, s=0, shape=[24], how="eager", traced=False)],
)
def powerlaw_mass(c):
    r = rng(c["s"])
    mmin, mmax, a, b = fnum(c["mmin"]), fnum(c["mmax"]), fnum(c["alpha"]), fnum(c["beta"])
    if near_minus_one(a, b):
        return None
    m1, q = mass_points(r, c["shape"], mmin, mmax)
    f = lambda m, x, *v: lift(lambda *w: M.powerlaw_primary_ratio_pdf(m, x, *w), c["how"])(*v)
    p = [jnp.asarray(v) for v in (a, b, mmin, mmax)] if c["traced"] else [a, b, mmin, mmax]
    got = arr(f(jnp.asarray(m1), jnp.asarray(q), *p), "density", m1.shape)
    ok = supported(m1, q, mmin, mmax)
    want = powerlaw_ref(m1, a, mmin, mmax) * powerlaw_ref(q, b, np.minimum(mmin / m1, 1 - 1e-9), 1.0)
    edge = arr(f(jnp.asarray(cast([mmin, mmin, mmin * 2])), jnp.asarray(cast([1.0, 0.9, 1.0])), *p), "density at the smallest primary mass", (3,))
    require(np.all(np.isfinite(edge)) and np.all(edge >= 0), "density at the smallest primary mass", got=edge)
    close(got[ok], want[ok], "power-law mass model", rtol=rel(a, b), alpha=a, beta=b, mmin=mmin, mmax=mmax, m1=m1[ok], q=q[ok])
    require(np.all(got[~ok] == 0), "power-law mass model is not zero outside its support", m1=m1[~ok], q=q[~ok], got=got[~ok])
    if c["shape"] == [24]:
        ms = np.exp(np.log(mmin) + np.log(mmax / mmin) * U)
        inner = q_int(lambda m, x: arr(f(jnp.asarray(cast(m)), jnp.asarray(cast(x)), *p)), ms, mmin)
        close(inner @ (UW * ms) * np.log(mmax / mmin), 1.0, "total probability of the power-law mass model", rtol=tol(2e-3, 5e-3) * (1 + abs(b)))
    return "inside and outside" if np.any(ok) and np.any(~ok) else "one-sided"


@sub(
    fdict(alpha=ALPHA, beta=BETA, mmin=reals(1.0, 10.0), mmax=reals(30.0, 120.0), fo=logreals(0.2, 10.0, special=[4.0]), s=seeds, shape=shapes(SH)),
    quick=60, thorough=3000, modes=("x64", "f32"),
)
def powerlaw_falloff(c):
    r = rng(c["s"])
    mmin, mmax, a, b = fnum(c["mmin"]), fnum(c["mmax"]), fnum(c["alpha"]), fnum(c["beta"])
    if near_minus_one(b):
        return None
    m1, q = mass_points(r, c["shape"], mmin, mmax)
    got = arr(M.powerlaw_primary_ratio_falloff_pdf(jnp.asarray(m1), jnp.asarray(q), a, b, mmin, mmax, c["fo"]), "density", m1.shape)
    ok = (m1 >= mmin * 1.001) & (q >= mmin / m1 * (1 - 1e-5)) & (q <= 1)
    pm = m1**a * sp.expit(c["fo"] * (m1 - mmin)) * sp.expit(-4.0 * (m1 - mmax))
    want = pm * powerlaw_ref(q, b, np.minimum(mmin / m1, 1 - 1e-9), 1.0)
    close(got[ok], want[ok], "soft power-law mass model", rtol=rel(a, b) * 3 + tol(0, 2e-3), atol=1e-30)
    out = (q > 1) | (q < mmin / m1 * (1 - 1e-4))
    require(np.all(got[out] == 0), "soft power-law mass model outside the allowed mass ratios", got=got[out])
    return "shape" if np.any(ok) else None


@sub(
    fdict(alpha=ALPHA, beta=BETA, mmin=reals(2.0, 10.0), mmax=reals(40.0, 120.0), mpp=reals(12.0, 60.0), sig=logreals(0.8, 20.0), lam=reals(0.0, 1.0, special=[0.0, 1.0]), delta=st.one_of(st.none(), logreals(0.2, 10.0)),
          s=seeds, shape=shapes(SH), how=st.sampled_from(HOW)),
    quick=120, thorough=5000, modes=("x64", "f32"),
)
def powerlaw_peak(c):
    r = rng(c["s"])
    mmin, mmax, a, b, mpp, sig, lam = (fnum(c[k]) for k in ("mmin", "mmax", "alpha", "beta", "mpp", "sig", "lam"))
    mpp = min(max(mpp, mmin), mmax)
    if near_minus_one(a, b):
        return None
    m1, q = mass_points(r, c["shape"], mmin, mmax)
    if c["delta"] is not None and c["s"] % 2:  # concentrate on the taper
        m1 = cast(mmin + c["delta"] * 1.3 * r.random(m1.shape))
        q = cast(mmin / m1 + (1 - mmin / m1) * r.random(m1.shape))
    d = c["delta"]
    f2, f1 = M.plpeak_primary_ratio_pdf, M.plpeak_primary_pdf
    if c["how"] != "eager":
        raw2, raw1 = f2, f1
        f2 = lambda m, x, *v, delta=None: lift(lambda *w: raw2(m, x, *w[:7], delta=w[7] if len(w) > 7 else None), c["how"])(*v, *(() if delta is None else (delta,)))
        f1 = lambda m, *v, delta=None: lift(lambda *w: raw1(m, *w[:6], delta=w[6] if len(w) > 6 else None), c["how"])(*v, *(() if delta is None else (delta,)))
    e = 1e-5
    inm = (m1 > mmin * (1 + e)) & (m1 < mmax * (1 - e))
    s1 = 1.0 if d is None else smooth_ref(d, m1, mmin)
    pm = (1 - lam) * powerlaw_ref(m1, a, mmin, mmax) * s1 + lam * truncnorm_ref(m1, mpp, sig, mmin, mmax)
    g1 = arr(f1(jnp.asarray(m1), a, mmin, mmax, mpp, sig, lam, delta=d), "primary density", m1.shape)
    at = tol(1e-12, 1e-5 if d is None else 3e-4 + 1e-4 * mmin / d) * max(1.0, float(np.max(pm)))
    info = dict(alpha=a, beta=b, mmin=mmin, mmax=mmax, mpp=mpp, sig=sig, lam=lam, delta=d)
    close(g1[inm], pm[inm], "power law + peak primary density", rtol=rel(a), atol=at, m1=m1[inm], **info)
    outm = (m1 < mmin * (1 - e)) | (m1 > mmax * (1 + e))
    require(np.all(g1[outm] == 0), "power law + peak outside [mmin, mmax]", m1=m1[outm], got=g1[outm])
    ok = inm & (q > mmin / m1 * (1 + e)) & (q <= 1) & (q * m1 - mmin > 1e-4)
    lowq = np.minimum(mmin / m1, 1 - 1e-9)
    cut = (1 - lowq) > tol(1e-7, 1e-3)
    s2 = 1.0 if d is None else smooth_ref(d, q * m1, mmin)
    want = pm * powerlaw_ref(q, b, lowq, 1.0) * s2
    g2 = arr(f2(jnp.asarray(m1), jnp.asarray(q), a, b, mmin, mmax, mpp, sig, lam, delta=d), "joint density", m1.shape)
    k = ok & cut
    close(g2[k], want[k], "power law + peak joint density", rtol=rel(a, b) * 2 + tol(0, 1e-3), atol=at * 10 * (1 + np.max(powerlaw_ref(q, b, lowq, 1.0)[k], initial=0)), m1=m1[k], q=q[k], **info)
    out = outm | (q > 1) | (q < mmin / m1 * (1 - 10 * e))
    require(np.all(g2[out] == 0), "power law + peak joint density outside its support", m1=m1[out], q=q[out], got=g2[out])
    if d is None and c["shape"] == [24]:
        ms = mmin + (mmax - mmin) * (np.arange(10)[:, None] + U).ravel() / 10
        w = np.tile(UW, 10) * (mmax - mmin) / 10
        g = arr(f1(jnp.asarray(cast(ms)), a, mmin, mmax, mpp, sig, lam))
        close(g @ w, 1.0, "total probability of power law + peak", rtol=tol(2e-4, 2e-3) * (1 + abs(a)))
    return "tapered" if d is not None else ("mixture" if 0 < lam < 1 else "pure")


SPIN = reals(-0.3, 1.3, special=[0.0, 1.0])


@sub(
    fdict(a1=logreals(1.0, 12.0, special=[1.0]), b1=logreals(1.0, 12.0, special=[1.0]), a2=logreals(1.0, 12.0), b2=logreals(1.0, 12.0), x1=reals(0.2, 1.0, special=[1.0]), x2=reals(0.2, 1.0, special=[1.0]), s=seeds, shape=shapes(SH),
          default=st.booleans(), how=st.sampled_from(HOW)),
    quick=80, thorough=4000, modes=("x64", "f32"),
)
def spin_magnitudes(c):
    r = rng(c["s"])
    pts = [cast(np.where(r.random(c["shape"]) < 0.2, r.choice([-0.2, 1.2, 1.0, 0.0], c["shape"]), r.random(c["shape"]))) for _ in range(2)]
    s1, s2 = pts
    a1, b1, a2, b2 = (fnum(c[k]) for k in ("a1", "b1", "a2", "b2"))
    x1, x2 = (1.0, 1.0) if c["default"] else (fnum(c["x1"]), fnum(c["x2"]))
    kw = lambda **k: {} if c["default"] else k

    def ev(f, data, par, **k):
        names = sorted(k)
        g = lift(lambda *v: f(*[jnp.asarray(t) for t in data], *v[: len(par)], **dict(zip(names, v[len(par) :]))), c["how"])
        return g(*par, *[k[n] for n in names])

    rt = tol(2e-6, 1e-3)

    def edge(s, x):  # near the upper edge float32 cannot represent x - s
        return (np.abs(s - x) > 1e-3) | (s == x)

    k1, k2 = edge(s1, x1), edge(s2, x2)
    g = arr(ev(M.beta_spin_magnitude, [s1], (a1, b1), **kw(amax=x1)), "p(a)", s1.shape)
    close(g[k1], beta_ref(s1, a1, b1, x1)[k1], "beta spin magnitude", rtol=rt, atol=tol(1e-12, 1e-6))
    g = arr(ev(M.iid_spin_magnitude, [s1, s2], (a1, b1), **kw(amax=x1)), "p(a1,a2)", s1.shape)
    k = k1 & edge(s2, x1)
    close(g[k], (beta_ref(s1, a1, b1, x1) * beta_ref(s2, a1, b1, x1))[k], "iid spin magnitudes", rtol=2 * rt, atol=tol(1e-12, 1e-6))
    sw = arr(M.iid_spin_magnitude(jnp.asarray(s2), jnp.asarray(s1), a1, b1, **kw(amax=x1)))
    close(sw, g, "exchange of the two spins", rtol=tol(1e-12, 1e-5))
    g = arr(ev(M.independent_spin_magnitude_beta_dist, [s1, s2], (a1, b1, a2, b2), **kw(amax1=x1, amax2=x2)), "p(a1,a2)", s1.shape)
    k = k1 & k2
    close(g[k], (beta_ref(s1, a1, b1, x1) * beta_ref(s2, a2, b2, x2))[k], "independent spin magnitudes", rtol=2 * rt, atol=tol(1e-12, 1e-6))
    return "shared maximum" if c["default"] else "own maxima"


@sub(
    fdict(xi1=reals(0.0, 1.0, special=[0.0, 1.0]), xi2=reals(0.0, 1.0, special=[0.0, 1.0]), g1=logreals(0.05, 10.0), g2=logreals(0.05, 10.0), s=seeds, shape=shapes(SH), how=st.sampled_from(HOW)),
    quick=80, thorough=4000, modes=("x64", "f32"),
)
def spin_tilts(c):
    r = rng(c["s"])
    t1, t2 = (cast(np.where(r.random(c["shape"]) < 0.3, r.choice([-1.2, 1.2, 1.0, -1.0], c["shape"]), 2 * r.random(c["shape"]) - 1)) for _ in range(2))
    xi1, xi2, g1, g2 = (fnum(c[k]) for k in ("xi1", "xi2", "g1", "g2"))
    iso = lambda t: np.where(np.abs(t) > 1, 0.0, 0.5)
    ali = lambda t, g: truncnorm_ref(t, 1.0, g, -1.0, 1.0)
    mix = lambda t, x, g: (1 - x) * iso(t) + x * ali(t, g)
    rt, at = tol(1e-9, 2e-4), tol(1e-12, 1e-7)
    j1, j2 = jnp.asarray(t1), jnp.asarray(t2)
    ev = lambda f, data, *par: lift(lambda *v: f(*data, *v), c["how"])(*par)
    close(arr(ev(M.mixture_isoalign_spin_tilt, (j1,), xi1, g1), "p(ct)", t1.shape), mix(t1, xi1, g1), "isotropic + aligned mixture", rtol=rt, atol=at)
    close(arr(ev(M.iid_spin_tilt, (j1, j2,), xi1, g1), "p", t1.shape), mix(t1, xi1, g1) * mix(t2, xi1, g1), "iid tilts", rtol=2 * rt, atol=at)
    close(arr(ev(M.independent_spin_tilt, (j1, j2,), xi1, xi2, g1, g2), "p", t1.shape), mix(t1, xi1, g1) * mix(t2, xi2, g2), "independent tilts", rtol=2 * rt, atol=at)
    close(arr(ev(M.default_spin_tilt, (j1, j2,), xi1, g1), "p", t1.shape), (1 - xi1) * iso(t1) * iso(t2) + xi1 * ali(t1, g1) * ali(t2, g1), "joint tilt mixture", rtol=2 * rt, atol=at)
    # total probability of the joint mixture
    x = -1 + 2 * (np.arange(6)[:, None] + U).ravel() / 6
    w = np.tile(UW, 6) / 3
    X, Y = (v[:24, :24] if False else v for v in np.meshgrid(x[::1], x[::1]))
    if g1 > 0.1:
        p = arr(M.default_spin_tilt(jnp.asarray(cast(X)), jnp.asarray(cast(Y)), xi1, g1))
        close(w @ p @ w, 1.0, "total probability of the joint tilt mixture", rtol=1e-3)
        p = arr(M.mixture_isoalign_spin_tilt(jnp.asarray(cast(x)), xi1, g1))
        close(w @ p, 1.0, "total probability of the tilt mixture", rtol=1e-3)
    return "mixed" if 0 < xi1 < 1 else "pure"
