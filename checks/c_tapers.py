"""P04: soft truncations and the low-mass taper."""

import numpy as np
import scipy.special as sp
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import HOW, arr, cast, close, finite, fnum, lift, require, sub, tol
from hypothesis import strategies as st

import jax.numpy as jnp

from gwinferno import distributions as D


@sub(
    fdict(x0=reals(-50.0, 100.0, special=[0.0]), k=st.one_of(reals(-50.0, 50.0), logreals(1e-3, 500.0)), L=reals(-3.0, 10.0, special=[1.0]), sgn=st.sampled_from([1, -1, 1.0, -1.0]),
          spread=logreals(1e-2, 1e3), s=seeds, shape=shapes(), default=st.booleans(), how=st.sampled_from(HOW)),
    quick=400, thorough=6000, modes=("x64", "f32"),
    corpus=[dict(x0=0.0, k=4.0, L=1.0, sgn=1, spread=1e3, s=1, shape=[24], default=False, how="vmap"), dict(x0=0.0, k=4.0, L=1.0, sgn=-1, spread=1e3, s=1, shape=[24], default=False, how="jit")],
)
def logistic(c):
    r = rng(c["s"])
    x0, k = fnum(c["x0"]), fnum(c["k"])
    x = cast(x0 + c["spread"] * (2 * r.random(c["shape"]) - 1))
    xj = jnp.asarray(x)
    cond = np.max(np.abs(k) * (np.abs(x) + abs(x0)) * tol(1e-15, 4e-7))
    close(arr(lift(lambda *v: D.logistic_function(xj, *v), c["how"])(c["L"], k, x0), "logistic", x.shape), c["L"] * sp.expit(k * (x - x0)), "logistic function", rtol=tol(1e-12, 1e-5) + cond, atol=tol(1e-30, 1e-30))
    kw = {} if c["default"] else dict(sgn=c["sgn"], sc=abs(k))
    sgn, sc = (1, 4.0) if c["default"] else (c["sgn"], abs(k))
    cond = np.max(sc * (np.abs(x) + abs(x0)) * tol(1e-15, 4e-7))
    t = -sgn * sc * (x - x0)
    more = () if c["default"] else (kw["sc"],)  # mapped over the places and widths, on one side
    side = {} if c["default"] else dict(sgn=sgn)
    u = arr(lift(lambda p, *w: D.logistic_unit(xj, p, **side, **({"sc": w[0]} if w else {})), c["how"])(x0, *more), "logistic unit", x.shape)
    close(u, sp.expit(t), "soft truncation", rtol=tol(1e-12, 1e-5) + cond, atol=1e-30)
    require(np.all((u >= 0) & (u <= 1)), "soft truncation outside [0, 1]", u=u)
    lu = arr(lift(lambda p, *w: D.log_logistic_unit(xj, p, **side, **({"sc": w[0]} if w else {})), c["how"])(x0, *more), "log logistic unit", x.shape)
    finite(lu, "log soft truncation", x=x, x0=x0, sc=sc)
    close(lu, sp.log_expit(t), "log soft truncation", rtol=tol(1e-12, 1e-5), atol=tol(1e-12, 1e-5) + cond)
    # truncation on the right for sgn=+1, on the left for sgn=-1, and the two are complementary
    v = arr(D.logistic_unit(xj, x0, **{**kw, "sgn": -sgn}))
    close(u + v, 1.0, "the two sides of a soft truncation", rtol=tol(1e-12, 1e-5))
    return "steep" if sc * c["spread"] > 100 else "mild"


@sub(
    fdict(alpha=reals(-6.0, 6.0, special=[0.0, -1.0]), low=st.one_of(st.none(), reals(1.0, 10.0)), high=st.one_of(st.none(), reals(20.0, 120.0)), fl=logreals(0.1, 20.0, special=[4.0]), fh=logreals(0.1, 20.0),
          s=seeds, shape=shapes(), default=st.booleans(), how=st.sampled_from(HOW)),
    quick=400, thorough=6000, modes=("x64", "f32"),
)
def soft_powerlaw(c):
    r = rng(c["s"])
    x = cast(np.exp(np.log(150.0) * r.random(c["shape"])))
    a, low, high, fl, fh = c["alpha"], c["low"], c["high"], c["fl"], c["fh"]
    kw = {} if c["default"] else dict(low_fall_off=fl, high_fall_off=fh)
    if c["default"]:
        fl = fh = 4.0
    want = x**a
    if low is not None:
        want = want * sp.expit(fl * (x - low))
    if high is not None:
        want = want * sp.expit(-fh * (x - high))
    bounds = {k: v for k, v in (("low", low), ("high", high)) if v is not None}
    names = list(bounds) + list(kw)
    f = lambda a_, *v: D.powerlaw_logit_pdf(jnp.asarray(x), a_, **dict(zip(names, v)))
    got = arr(lift(f, c["how"])(a, *[{**bounds, **kw}[k] for k in names]), "softly truncated power law", x.shape)
    close(got, want, "softly truncated power law", rtol=tol(1e-10, 3e-3), atol=1e-30 + tol(0.0, 1e-36) * x.astype(float) ** a, alpha=a, low=low, high=high, fl=fl, fh=fh, x=x)
    return f"low={low is not None} high={high is not None}"


@sub(
    fdict(dx=st.one_of(logreals(1e-2, 30.0), st.just(0.0)), xmin=reals(-5.0, 40.0, special=[0.0, 5.0]), f=st.lists(reals(-1.0, 2.0, special=[0.0, 1.0, 0.5]), min_size=6, max_size=6), two_d=st.booleans(), how=st.sampled_from(HOW)),
    quick=400, thorough=8000, modes=("x64", "f32"),
    corpus=[dict(dx=5.0, xmin=5.0, f=[0.0, 1.0, 0.5, -1.0, 2.0, 0.25], two_d=False, how="vmap"), dict(dx=0.0, xmin=5.0, f=[0.0, 1.0, 0.5, -1.0, 2.0, 0.25], two_d=True, how="eager")],
)
def taper(c):
    """0 below the window, 1 above it, increasing from 0 to 1 inside with S(t) + S(1-t) = 1"""
    dx, xmin = fnum(c["dx"]), fnum(c["xmin"])
    x = cast(xmin + np.array(c["f"]) * (dx if dx > 0 else 1.0))
    if c["two_d"]:
        x = x.reshape(2, 3)
    top = cast(xmin + dx)
    got = arr(lift(lambda d, m: D.smooth(d, jnp.asarray(x), m), c["how"])(dx, xmin), "taper", x.shape)
    u = x - xmin
    ins = (x >= xmin) & (x < xmin + dx)
    with np.errstate(all="ignore"):
        want = np.where(ins, sp.expit(-(dx / np.where(u == 0, 1e-300, u) + dx / np.where(u - dx == 0, -1e-300, u - dx))), np.where(x < xmin, 0.0, 1.0))
    edge = (np.abs(x - xmin) <= 1e-6 * (1 + abs(xmin))) | (np.abs(x - top) <= 1e-6 * (1 + abs(xmin) + dx))
    at = tol(1e-9, 3e-4 * (1 + (abs(xmin) + dx) / max(dx, 1e-3) * 0.1))
    close(got[~edge], want[~edge], "taper", rtol=0, atol=at, dx=dx, xmin=xmin, x=x)
    require(np.all(np.isfinite(got)) and np.all((got >= 0) & (got <= 1)), "taper outside [0, 1]", got=got, dx=dx, xmin=xmin, x=x)
    # on the edges of the window themselves (dx > 0) the value is the limit
    if dx > 0.05:
        close(got[edge], np.where(np.abs(x - xmin)[edge] < np.abs(x - top)[edge], 0.0, 1.0), "taper at the edge of its window", rtol=0, atol=1e-2)
        t = np.linspace(0.02, 0.98, 24)
        xs = cast(xmin + t * dx)
        s = arr(D.smooth(dx, jnp.asarray(xs), xmin))
        require(np.all(np.diff(s) >= -at), "taper decreases inside its window", s=s)
        close(s + s[::-1], 1.0, "S(t) + S(1-t)", rtol=0, atol=2 * at + tol(1e-9, 1e-3 * (1 + abs(xmin) / dx)))
    return "window" if np.any(ins) else "outside"
