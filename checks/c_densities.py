"""P03: closed-form densities (power law, truncated normal / log-normal, beta)."""

import numpy as np
import scipy.special as sp
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import HOW, arr, cast, close, finite, fnum, lift, require, sub, tol
from hypothesis import strategies as st

import jax
import jax.numpy as jnp

from gwinferno import distributions as D

GX, GW = np.polynomial.legendre.leggauss(48)


def powerlaw_ref(x, a, lo, hi, floor=0.0):
    x, a, lo, hi = np.broadcast_arrays(x, a, lo, hi)
    L = np.log(hi / lo)
    with np.errstate(all="ignore"):
        k = (1 + a) * L
        integral = np.where(a == -1, L, lo ** (1 + a) * np.where(k == 0, 1, np.expm1(k)) / np.where(a == -1, 1, 1 + a))
        p = x**a / integral
    return np.where((x < lo) | (x > hi), floor, p)


def draw_x(r, n, lo, hi, outside=True):
    """inside, at both ends and outside of [lo, hi]"""
    u = r.random(n)
    x = lo + (hi - lo) * u
    if outside and n >= 5:
        x[0], x[1] = lo, hi
        x[2] = lo - (0.1 + r.random()) * max(hi - lo, 1e-3)
        x[3] = hi + (0.1 + r.random()) * max(hi - lo, 1e-3)
    return x


ALPHA = st.one_of(reals(-8.0, 8.0, special=[-1.0, 0.0, -2.0, 1.0]), st.sampled_from([-1.0, -1.01, -0.99, -1.1]))


@sub(
    fdict(alpha=ALPHA, lo=logreals(1e-2, 50.0, special=[1.0, 5.0]), ratio=logreals(1.2, 200.0), floor=st.sampled_from([0.0, 0.0, 1e-3, -5.0]), s=seeds, shape=shapes(),
          arrays=st.booleans(), how=st.sampled_from(HOW)),
    quick=400, thorough=6000, modes=("x64", "f32"),
    corpus=[dict(alpha=-1.0, lo=5.0, ratio=20.0, floor=0.0, s=3, shape=[24], arrays=False, how="eager"), dict(alpha=-2.0, lo=5.0, ratio=20.0, floor=0.0, s=4, shape=[70, 900], arrays=True, how="jit")],
)
def powerlaw(c):
    lo, hi, a = fnum(c["lo"]), fnum(c["lo"] * c["ratio"]), fnum(c["alpha"])
    n = int(np.prod(c["shape"]))
    r = rng(c["s"])
    x = np.exp(np.log(lo) + np.log(hi / lo) * r.random(n))
    if n >= 5:
        x[0], x[1], x[2], x[3] = lo, hi, lo * 0.7, hi * 1.3
    x = cast(x).reshape(c["shape"])
    f = lambda x, *par, floor: lift(lambda *v: D.powerlaw_pdf(x, *v, floor=floor), c["how"])(*par)
    if c["arrays"] and x.ndim:  # parameters which vary with the data (as the lower mass-ratio bound does)
        av = cast(np.where(r.random(x.shape) < 0.5, a, cast(a + 0.75)))
        lov = cast(lo * (1 + 0.05 * r.random(x.shape)))
        got = arr(f(jnp.asarray(x), jnp.asarray(av), jnp.asarray(lov), hi, floor=c["floor"]), "powerlaw", x.shape)
        want, a_ = powerlaw_ref(x, av, lov, hi, c["floor"]), av
    else:
        got = arr(f(jnp.asarray(x), a, lo, hi, floor=c["floor"]), "powerlaw", x.shape)
        want, a_ = powerlaw_ref(x, a, lo, hi, c["floor"]), a
    cond = 1 + 1 / np.maximum(np.where(a_ == -1, 1, np.abs(1 + a_)) * np.log(hi / lo), 1e-12)
    eps = tol(1e-13, 1e-6) * (10 + np.abs(a_) * 5)
    rel = np.max(eps * cond)
    if rel > 0.05:
        return None  # float32 cancellation next to alpha = -1
    close(got, want, "power law density", rtol=rel, atol=1e-30, alpha=a, lo=lo, hi=hi, x=x)
    if not c["arrays"]:
        t = np.log(lo) + np.log(hi / lo) * (GX + 1) / 2
        xs = cast(np.clip(np.exp(t), lo, hi))
        tot = np.sum(GW * arr(f(jnp.asarray(xs), a, lo, hi, floor=0.0)) * xs) * np.log(hi / lo) / 2
        close(tot, 1.0, "integral of the power law density", rtol=1e-4 + rel)
    return "log-flat" if a == -1 else "general"


@sub(
    fdict(lo=reals(-5.0, 5.0, special=[0.0, -1.0]), width=logreals(0.1, 50.0, special=[1.0, 2.0]), m=reals(-1.0, 2.0, special=[0.0, 1.0]), sig=logreals(0.05, 10.0, special=[1.0]),
          s=seeds, shape=shapes(), arrays=st.booleans(), log=st.booleans(), how=st.sampled_from(HOW)),
    quick=400, thorough=6000, modes=("x64", "f32"),
)
def truncated_normal(c):
    r = rng(c["s"])
    n = int(np.prod(c["shape"]))
    lo, hi = fnum(c["lo"]), fnum(c["lo"] + c["width"])
    if c["log"]:
        lo, hi = fnum(np.exp(c["lo"] / 2)), fnum(np.exp(c["lo"] / 2) * (1 + c["width"]))
        if c["s"] % 5 == 0:
            lo = 0.0
    t = (lambda v: np.log(np.maximum(v, 1e-300))) if c["log"] else (lambda v: v)
    tl, th = (max(t(lo), t(hi) - 6) if c["log"] else lo), t(hi)
    mu, sig = fnum(tl + c["m"] * (th - tl)), fnum(c["sig"])
    x = draw_x(r, n, lo, hi)
    if c["log"]:
        x = np.maximum(x, 1e-3)
    x = cast(x).reshape(c["shape"])
    muv = cast(mu + 0.1 * sig * r.random(x.shape)) if c["arrays"] and x.ndim else mu
    z0, z1 = (t(lo) - muv) / sig if lo > 0 or not c["log"] else -np.inf, (t(hi) - muv) / sig
    mass = np.where(np.asarray(z0) > 0, sp.ndtr(-np.asarray(z0)) - sp.ndtr(-np.asarray(z1)), sp.ndtr(z1) - sp.ndtr(z0))
    if np.any(mass < tol(1e-7, 1e-3)):
        return None  # far tail
    rel = float(np.max(tol(1e-13, 2e-6) / mass + tol(1e-12, 1e-5) * (1 + np.max(((t(x) - muv) / sig) ** 2))))
    with np.errstate(all="ignore"):
        want = np.exp(-((t(x) - muv) ** 2) / (2 * sig**2)) / (sig * np.sqrt(2 * np.pi)) / mass / (x if c["log"] else 1)
    want = np.where((x < lo) | (x > hi), 0, want)
    got = arr(lift(lambda *v: D.truncnorm_pdf(jnp.asarray(x), *v, log=c["log"]), c["how"])(jnp.asarray(muv), sig, lo, hi), "truncated normal", x.shape)
    close(got, want, "truncated normal density", rtol=rel, atol=1e-30, mu=mu, sig=sig, lo=lo, hi=hi, log=c["log"])
    # normalised
    if lo > 0 or not c["log"]:
        y = t(lo) + (t(hi) - t(lo)) * (np.arange(16)[:, None] + (GX + 1) / 2) / 16
        xs = cast(np.clip(np.exp(y) if c["log"] else y, lo, hi)).reshape(24, 32)
        p = arr(D.truncnorm_pdf(jnp.asarray(xs), mu, sig, lo, hi, log=c["log"])).reshape(16, 48) * (xs.reshape(16, 48) if c["log"] else 1)
        if (t(hi) - t(lo)) / sig < 120:
            close(np.sum(GW * p) * (t(hi) - t(lo)) / 32, 1.0, "integral of the truncated normal", rtol=1e-4 + 3 * rel)
    return "log-normal" if c["log"] else "normal"


@sub(
    fdict(alpha=logreals(0.2, 40.0, special=[1.0, 2.0]), beta=logreals(0.2, 40.0, special=[1.0, 2.0]), scale=logreals(0.05, 20.0, special=[1.0, 0.99]), floor=st.sampled_from([0.0, 0.0, 1e-4]),
          s=seeds, shape=shapes(), arrays=st.booleans(), edge=st.booleans(), how=st.sampled_from(HOW)),
    quick=400, thorough=6000, modes=("x64", "f32"),
    corpus=[dict(alpha=1.0, beta=1.0, scale=1.0, floor=0.0, s=0, shape=[5], arrays=False, edge=True, how="eager"), dict(alpha=1.0, beta=3.0, scale=0.5, floor=0.0, s=0, shape=[24], arrays=False, edge=True, how="eager")],
)
def beta(c):
    r = rng(c["s"])
    a, b, scale = fnum(c["alpha"]), fnum(c["beta"]), fnum(c["scale"])
    n = int(np.prod(c["shape"]))
    x = scale * (0.002 + 0.996 * r.random(n))
    if n >= 5:
        x[2], x[3] = -0.3 * scale, 1.2 * scale
        if c["edge"]:  # at the ends of the support only where the density is finite
            x[0] = 0.0 if a >= 1 else x[0]
            x[1] = scale if b >= 1 else x[1]
    x = cast(x).reshape(c["shape"])
    av = cast(a * (1 + r.random(x.shape))) if c["arrays"] and x.ndim else a
    got = arr(lift(lambda a_, b_, s_: D.betadist(jnp.asarray(x), a_, b_, scale=s_, floor=c["floor"]), c["how"])(jnp.asarray(av) if np.ndim(av) else av, b, scale), "beta", x.shape)
    with np.errstate(all="ignore"):
        lp = sp.xlogy(np.asarray(av) - 1, x) + sp.xlogy(b - 1, scale - x) - (av + b - 1) * np.log(scale) - sp.betaln(av, b)
        want = np.where((x >= 0) & (x <= scale), np.exp(lp), c["floor"])
        cond = np.where((x > 0) & (x < scale), np.abs(b - 1) * scale / np.maximum(scale - x, 1e-6), 0)
    close(got, want, "beta density", rtol=tol(2e-6, 3e-5) + tol(2e-15, 4e-7) * float(np.max(cond) + a + b) * 5, atol=tol(1e-30, 1e-12), alpha=a, beta=b, scale=scale, x=x)
    if a >= 1 and b >= 1 and not c["arrays"]:
        xs = cast(scale * (np.arange(8)[:, None] + (GX + 1) / 2) / 8)
        p = arr(D.betadist(jnp.asarray(xs), a, b, scale=scale))
        close(np.sum(GW * p) * scale / 16, 1.0, "integral of the beta density", rtol=2e-3)
    return "uniform" if a == b == 1 else "shaped"
