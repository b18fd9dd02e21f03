"""P08: (normalised) spline functions."""

import numpy as np
from checks.c_spline_bases import build, points
from gens import fdict, logreals, reals, rng, seeds, shapes
import harness
from harness import arr, cast, close, finite, fnum, require, sub, tol
from hypothesis import strategies as st
from spline_ref import bspline, default_knots, mspline, quad_nodes

import jax.numpy as jnp

from gwinferno import interpolation as I

harness.SUBS.clear()  # c_spline_bases registers its own sub-checks on import

CASE = dict(
    kind=st.sampled_from(["M", "B", "LogX", "LogY", "LogXLogY"]), k=st.sampled_from([4, 4, 3, 5]), extra=st.one_of(st.integers(0, 9), st.sampled_from([16, 30, 46])), lo=reals(-3.0, 3.0, special=[0.0]), w=logreals(0.5, 60.0, special=[1.0]),
    knots=st.sampled_from(["default", "default", "default", "interior"]), s=seeds, shape=shapes([[7], [24], [3, 5]]), amp=reals(0.1, 2.0), signed=st.sampled_from([False, False, True]),
)


def coefficients(c, r, n):
    if c["kind"] in ("LogY", "LogXLogY"):
        return cast(c["amp"] * r.standard_normal(n))
    cs = cast(0.05 + r.random(n) ** (1 + c["amp"]))
    if c.get("signed"):
        # of both signs; for M-splines sometimes with a sum whose sign differs from the one of the integral
        cs = cast(cs * np.where(r.random(n) < 0.5, 1.0, -1.0))
        if c["s"] % 3 == 0:
            cs[0] = cast(1.5 * np.sum(np.abs(cs[1:])))
            cs[1:] = -np.abs(cs[1:])
    return cs


def reference(c, t, k, y, tr, cs):
    b = (mspline if c["kind"] == "M" else bspline)(t, k, y, (tr[0] - 1e-9, tr[1] + 1e-9))
    v = np.einsum("i...,i->...", b, cs)
    return np.exp(v) if c["kind"] in ("LogY", "LogXLogY") else v


@sub(
    fdict(**CASE), quick=120, thorough=4000, modes=("x64", "f32"), split=4,
    corpus=[dict(kind=k, k=4, extra=6, lo=0.5, w=20.0, knots="default", s=3, shape=[24], amp=1.0, signed=g) for k in ("M", "B", "LogX", "LogY", "LogXLogY") for g in (False, True)],
)
def normalised(c):
    """the curve is the linear combination (or its exponential), zero outside the range, and integrates to one"""
    obj, t, tr, f, inv, n, k, lohi, r = build(c, normalize=True)
    cs = coefficients(c, r, n)
    given = cs.copy()
    x = points(c, r, t, tr, inv, lohi, c["shape"])
    y = np.clip(f(x), *tr)
    inside = (x >= lohi[0]) & (x <= lohi[1])
    nodes, wts = quad_nodes(t, tr)
    jac = np.exp(nodes) if c["kind"] in ("LogX", "LogXLogY") else 1.0
    curve = wts * jac * reference(c, t, k, nodes, tr, cs)
    total = np.sum(curve)
    size = np.sum(np.abs(curve)) / abs(total) if total else np.inf
    if size > 20 or (c["kind"] == "M" and abs(np.sum(cs)) < 0.05 * np.sum(np.abs(cs))):
        return None  # the integral (or the sum dividing M-spline coefficients) cancels: not normalisable
    want = reference(c, t, k, np.where(inside, y, 0.5 * (tr[0] + tr[1])), tr, cs) / total
    # numerical normalisation on ~1000 points of the linear coordinate: second order in the widest knot cell it has to resolve
    cell = np.min(np.diff(inv(t[k - 1 : n + 1])))
    h = (lohi[1] - lohi[0]) / 999
    rt = tol(1e-6, 3e-4) + 0.4 * (h / cell) ** 2 * (1 + c["amp"]) ** 2 * 3
    rt *= size**2
    js = cs if c["s"] % 2 else jnp.asarray(cs)
    bas = obj.bases(jnp.asarray(x))
    got = arr(obj.project(bas, js), "projection", x.shape)
    require(np.array_equal(cs, given), "the caller's coefficients were modified")
    scale = np.max(np.abs(want)) * size if want.size else 1.0
    at = tol(1e-9, 1e-4) * scale * (1 + (abs(tr[0]) + abs(tr[1])) / (tr[1] - tr[0]))
    close(got[inside], want[inside], f"normalised {c['kind']} spline", rtol=rt, atol=at, n=n, k=k, range=lohi)
    require(np.all(got[~inside] == 0), "spline is not zero outside its range", x=x[~inside], got=got[~inside])
    ev = arr(obj.eval(jnp.asarray(x), js), "eval", x.shape)
    ca = arr(obj(jnp.asarray(x), js), "call", x.shape)
    close(ev, got, "eval against project(bases)", rtol=tol(1e-10, 1e-5))
    close(ca, got, "call against project(bases)", rtol=tol(1e-10, 1e-5))
    # a normalised curve does not depend on the overall scale of its coefficients
    other = cast(cs + 1.7) if c["kind"] in ("LogY", "LogXLogY") else cast(cs * 3.0)
    close(arr(obj.project(bas, jnp.asarray(other))), got, "rescaled coefficients", rtol=tol(1e-9, 1e-3), atol=tol(1e-12, 1e-5) * scale)
    return f"{c['kind']}/{c['knots']}/{'both signs' if c.get('signed') and np.any(cs < 0) else 'positive'}"


@sub(
    fdict(**CASE), quick=80, thorough=3000, modes=("x64",), split=4,
)
def unnormalised(c):
    """without normalisation B-spline curves are exactly the linear combination; M-splines that of the rescaled coefficients"""
    obj, t, tr, f, inv, n, k, lohi, r = build(c, normalize=False)
    cs = coefficients(c, r, n)
    x = points(c, r, t, tr, inv, lohi, c["shape"])
    y = np.clip(f(x), *tr)
    inside = (x >= lohi[0]) & (x <= lohi[1])
    if c["kind"] == "M" and abs(np.sum(cs)) < 0.05 * np.sum(np.abs(cs)):
        return None
    eff = cs / cs.sum() if c["kind"] == "M" else cs
    want = reference(c, t, k, np.where(inside, y, 0.5 * (tr[0] + tr[1])), tr, eff)
    got = arr(obj(jnp.asarray(x), jnp.asarray(cs)), "curve", x.shape)
    close(got[inside], want[inside], f"{c['kind']} spline", rtol=1e-8, atol=1e-9)
    require(np.all(got[~inside] == 0), "spline is not zero outside its range", x=x[~inside], got=got[~inside])
    return c["kind"]


@sub(
    fdict(k=st.sampled_from([4, 3]), extra=st.integers(0, 8), lo=reals(-3.0, 3.0), w=logreals(0.5, 60.0), s=seeds, m=st.sampled_from([40, 100]), kind=st.sampled_from(["B", "LogX"]), noise=st.booleans()),
    quick=60, thorough=2000, modes=("x64",), split=4,
)
def least_squares(c):
    """get_coefficients returns the least-squares coefficients: exact on spline data, normal equations otherwise"""
    r = rng(c["s"])
    k, n = c["k"], c["k"] + c["extra"]
    lo, hi = c["lo"], c["lo"] + c["w"]
    if c["kind"] == "LogX":
        lo, hi = np.exp(c["lo"] / 3), np.exp(c["lo"] / 3) * (1 + c["w"])
    obj = (I.BSpline if c["kind"] == "B" else I.LogXBSpline)(n, xrange=(lo, hi), k=k, normalize=False)
    f = np.log if c["kind"] == "LogX" else (lambda v: v)
    u = np.linspace(0.001, 0.999, c["m"])
    x = lo + (hi - lo) * u if c["kind"] == "B" else lo * (hi / lo) ** u
    B = bspline(default_knots(n, k, (f(lo), f(hi))), k, f(x), (f(lo), f(hi)))
    cs = r.standard_normal(n)
    yv = cs @ B
    if c["noise"]:
        yv = yv + 0.3 * r.standard_normal(len(x))
    want = np.linalg.lstsq(B.T, yv, rcond=None)[0]
    a, fit, dm = obj.get_coefficients(jnp.asarray(x), jnp.asarray(yv))
    cond = np.linalg.cond(B.T) ** 2 * 1e-13
    if cond > 1e-3:
        return None
    close(arr(a, "coefficients", (n,)), want, "least-squares coefficients", rtol=1e-6, atol=1e-7 + cond * 100)
    close(arr(fit, "fit", x.shape), want @ B, "fitted values", rtol=1e-6, atol=1e-6 + cond * 100)
    return "noisy" if c["noise"] else "exact"


@sub(
    fdict(xd=st.integers(4, 5), yd=st.integers(4, 5), s=seeds, x0=reals(0.5, 5.0), xw=logreals(0.5, 20.0), y0=reals(-3.0, 3.0), yw=logreals(0.5, 5.0), amp=reals(0.0, 1.5), logx=st.booleans()),
    quick=8, thorough=100, modes=("f32",), split=2,
)
def bivariate_normalised(c):
    r = rng(c["s"])
    xr, yr = (fnum(c["x0"]), fnum(c["x0"] + c["xw"])), (fnum(c["y0"]), fnum(c["y0"] + c["yw"]))
    f = np.log if c["logx"] else (lambda v: v)
    kw = dict(xbasis=I.LogXBSpline) if c["logx"] else {}
    obj = I.RectBivariateBasisSpline(c["xd"], c["yd"], xrange=xr, yrange=yr, normalize=True, **kw)
    cs = cast(c["amp"] * r.standard_normal((c["xd"], c["yd"])))
    fx = (f(xr[0]), f(xr[1]))
    tx, ty = default_knots(c["xd"], 4, fx), default_knots(c["yd"], 4, yr)
    gx, wx = quad_nodes(tx, fx)
    gy, wy = quad_nodes(ty, yr)
    lp = np.einsum("ia,jb,ij->ab", bspline(tx, 4, gx, fx), bspline(ty, 4, gy, yr), cs)
    total = (wx * (np.exp(gx) if c["logx"] else 1)) @ np.exp(lp) @ wy
    x = cast(xr[0] + (xr[1] - xr[0]) * (0.01 + 0.98 * r.random(15)))
    y = cast(yr[0] + (yr[1] - yr[0]) * (0.01 + 0.98 * r.random(15)))
    want = np.exp(np.einsum("ia,ja,ij->a", bspline(tx, 4, f(x), fx), bspline(ty, 4, y, yr), cs)) / total
    got = arr(obj.project(obj.bases(jnp.asarray(x), jnp.asarray(y)), jnp.asarray(cs)), "2D density", x.shape)
    close(got, want, "normalised 2D spline", rtol=1e-2)
    return "log x" if c["logx"] else "linear"
