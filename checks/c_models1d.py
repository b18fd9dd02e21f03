"""P10: one-dimensional B-spline population models."""

import numpy as np
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import HOW, arr, cast, close, finite, fnum, lift, require, sub, tol
from hypothesis import strategies as st
from model_ref import Curve, proportional

import jax
import jax.numpy as jnp

from gwinferno import interpolation as I
from gwinferno.models.bsplines import single as M

KIND = dict(B=I.BSpline, LogX=I.LogXBSpline, LogY=I.LogYBSpline, LogXLogY=I.LogXLogYBSpline)
# class, default range, default basis, is the default basis normalised
MODELS = {
    "spin magnitude": (M.BSplineSpinMagnitude, (0.0, 1.0), "LogY"),
    "spin tilt": (M.BSplineSpinTilt, (-1.0, 1.0), "LogY"),
    "chi_eff": (M.BSplineChiEffective, (-1.0, 1.0), "B"),
    "symmetric chi_eff": (M.BSplineSymmetricChiEffective, (0.0, 1.0), "B"),
    "chi_p": (M.BSplineChiPrecess, (0.0, 1.0), "B"),
    "mass ratio": (M.BSplineRatio, (0.0, 1.0), "LogY"),
    "mass": (M.BSplineMass, (2.0, 100.0), "LogXLogY"),
    "generic": (M.Base1DBSplineModel, (0.0, 1.0), "B"),
}


def samples(r, shape, lo, hi, mode):
    n = int(np.prod(shape))
    x = lo + (hi - lo) * (1e-4 + (1 - 2e-4) * r.random(n))
    if mode == "outside":
        w = hi - lo
        x = np.where(r.random(n) < 0.3, np.where(r.random(n) < 0.5, hi + w * (0.01 + 0.3 * r.random(n)), lo - min(w, lo if lo > 0 else w) * (0.01 + 0.3 * r.random(n))), x)
    elif mode == "edge":
        k = r.integers(0, 6, n)
        x = np.where(k == 0, lo, np.where(k == 1, hi, x))
    elif mode == "all outside":
        x = hi + (hi - lo) * (0.01 + r.random(n))
    return cast(x).reshape(shape)


CASE = dict(
    model=st.sampled_from(sorted(MODELS)), n=st.one_of(st.integers(4, 14), st.integers(4, 14), st.sampled_from([20, 30, 50])), degree=st.sampled_from([3, 3, 2, 4]), rng_=st.sampled_from(["default", "default", "xrange", "own"]), lo=reals(0.05, 0.9), w=reals(0.3, 3.0),
    basis=st.sampled_from([None, None, None, "B", "LogY"]), normalize=st.sampled_from([None, True, False]), mode=st.sampled_from(["inside", "outside", "edge", "all outside"]), s=seeds,
    pe=st.sampled_from([[3, 8], [1, 5], [20], [4, 25]]), ninj=st.sampled_from([30, 1, 100]), amp=reals(0.1, 2.0), how=st.sampled_from(HOW), buf=st.booleans(), share=st.sampled_from([False] * 5 + [True]),
)


@sub(
    fdict(**CASE), quick=80, thorough=3000, modes=("x64", "f32"), split=4,
    corpus=[
        dict(model=m, n=8, degree=3, rng_="default", lo=0.1, w=1.0, basis=None, normalize=nrm, mode="outside", s=5 + i, pe=[4, 25], ninj=100, amp=1.0, how="eager", buf=True)
        for i, m in enumerate(sorted(MODELS)) for nrm in (None,)
    ]
    + [dict(model=m, n=n, degree=3, rng_="default", lo=0.1, w=1.0, basis=None, normalize=None, mode="outside", s=50 + i, pe=[69, 200], ninj=20000, amp=0.7, how="vmap", buf=False) for i, (m, n) in enumerate([("mass", 50), ("spin tilt", 24)])]
    + [dict(model=m, n=8, degree=3, rng_="default", lo=0.1, w=1.0, basis=None, normalize=None, mode="inside", s=70 + i, pe=[20, 100], ninj=1, amp=1.0, how="jit", buf=False, share=True) for i, m in enumerate(sorted(MODELS))],
)
def pointwise(c):
    """the density at every posterior sample and every injection is the spline curve there, zero outside, normalised where the model normalises"""
    r = rng(c["s"])
    cls, (lo, hi), kind = MODELS[c["model"]]
    k = c["degree"] + 1
    n = max(c["n"], k)
    kw = dict(degree=c["degree"]) if c["degree"] != 3 else {}
    if c["basis"] is not None:
        kind = c["basis"]
        kw["basis"] = KIND[kind]
    if c["rng_"] == "own" and c["model"] == "mass ratio":
        lo = fnum(c["lo"] * 0.5)
        kw["qmin"] = lo
    elif c["rng_"] == "own" and c["model"] == "mass":
        lo, hi = fnum(1 + 10 * c["lo"]), fnum(30 + 40 * c["w"])
        kw["mmin"], kw["mmax"] = lo, hi
    elif c["rng_"] != "default" and c["model"] != "mass":
        lo, hi = fnum(c["lo"] - 0.5 if c["model"] in ("chi_eff", "spin tilt") else c["lo"]), fnum(c["lo"] + c["w"])
        kw["xrange"] = (lo, hi)
    elif c["rng_"] == "xrange":
        lo, hi = fnum(1 + 10 * c["lo"]), fnum(30 + 40 * c["w"])
        kw["xrange"] = (lo, hi)
    norm = kind != "B"
    if c["normalize"] is not None:
        kw["normalize"] = norm = c["normalize"]
    pe, inj = samples(r, c["pe"], lo, hi, c["mode"]), samples(r, [c["ninj"]], lo, hi, c["mode"] if c["mode"] != "all outside" else "outside")
    if c.get("share"):  # as many injections as posterior samples, and the same ones to begin with
        first, rest = pe.reshape(-1), samples(r, [pe.size], lo, hi, "inside")
        inj = np.where(np.arange(pe.size) < max(1, (3 * pe.size) // 4), first, rest)
    fac, a_pe, a_inj = 1.0, pe, inj
    if c["model"] == "symmetric chi_eff":
        pe, inj = pe * r.choice([-1.0, 1.0], pe.shape), inj * r.choice([-1.0, 1.0], inj.shape)
        fac, a_pe, a_inj = 0.5, np.abs(pe), np.abs(inj)
    model = cls(n, jnp.asarray(pe), jnp.asarray(inj), **kw)
    ref = Curve(kind, n, k, lo, hi)
    rt = tol(1e-8, 2e-3)
    own = np.zeros(n, cast(0.0).dtype)  # the caller's own array, written anew before each evaluation
    for rep in range(2):  # the second evaluation is not influenced by the first
        cs = cast(c["amp"] * r.standard_normal(n)) if ref.logy else cast(0.05 + r.random(n))
        fp, fi = (lift(lambda v: model(v), c["how"]), lift(lambda v: model(v, pe_samples=False), c["how"]))
        own[:] = cs
        given = own if c["buf"] else jnp.asarray(cs)
        if (c["s"] + rep) % 2:  # the last question of one round is the first of the next
            gi = arr(fi(given), "density at the injections", inj.shape).copy()
            gp = arr(fp(given), "density at the posterior samples", pe.shape).copy()
        else:
            gp = arr(fp(given), "density at the posterior samples", pe.shape).copy()
            gi = arr(fi(given), "density at the injections", inj.shape).copy()
        pairs = []
        for got, x in ((gp, a_pe), (gi, a_inj)):
            ok = ref.away_from_edges(x)
            w = ref.g(x, cs) * fac
            out = (x < lo) | (x > hi)
            require(np.all(got[ok & out] == 0), f"{c['model']} model outside its range", x=x[ok & out], got=got[ok & out])
            require(np.all(got >= 0) and np.all(np.isfinite(got)), f"{c['model']} density negative or not finite", got=got)
            pairs.append((got[ok], w[ok]))
        tot = ref.integral(cs)
        const = 1.0 / tot if norm else 1.0
        crt = ref.norm_tol(cs, 1500 if kind == "LogXLogY" else 1000) if norm else rt
        proportional(pairs, f"{c['model']} model", rt, tol(1e-9, 1e-3), const, crt + rt)
    return f"{c['model']}, {c['mode']}"


@sub(
    fdict(model=st.sampled_from(["spin magnitude", "spin tilt", "mass", "mass ratio", "chi_eff"]), n=st.integers(4, 10), s=seeds, ninj=st.sampled_from([30, 100])),
    quick=24, thorough=500, modes=("x64",), split=4,
)
def sample_order_and_grouping(c):
    """permuting, regrouping or exchanging the roles of the samples permutes, regroups or exchanges the densities"""
    r = rng(c["s"])
    cls, (lo, hi), kind = MODELS[c["model"]]
    pe, inj = samples(r, [4, 25], lo, hi, "outside"), samples(r, [c["ninj"]], lo, hi, "outside")
    cs = jnp.asarray(r.random(c["n"]))
    base = cls(c["n"], jnp.asarray(pe), jnp.asarray(inj))
    gp, gi = arr(base(cs)), arr(base(cs, pe_samples=False))
    p = r.permutation(pe.size)
    perm = cls(c["n"], jnp.asarray(pe.ravel()[p].reshape(4, 25)), jnp.asarray(inj[::-1]))
    close(arr(perm(cs)), gp.ravel()[p].reshape(4, 25), "permuted posterior samples", rtol=1e-9)
    close(arr(perm(cs, pe_samples=False)), gi[::-1], "reversed injections", rtol=1e-9)
    swap = cls(c["n"], jnp.asarray(inj), jnp.asarray(pe.ravel()))
    close(arr(swap(cs)), gi, "injections given as posterior samples", rtol=1e-9)
    close(arr(swap(cs, pe_samples=False)), gp.ravel(), "posterior samples given as injections", rtol=1e-9)
    grid = cls(c["n"], jnp.asarray(pe), jnp.asarray(pe[::-1]))
    close(arr(grid(cs)), gp, "injections on a grid", rtol=1e-9)
    close(arr(grid(cs, pe_samples=False)), gp[::-1], "injections on a grid", rtol=1e-9)
    return c["model"]
