"""P07: B-spline / M-spline design matrices."""

import numpy as np
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import arr, cast, close, finite, fnum, require, sub, tol
from hypothesis import strategies as st
from spline_ref import bspline, bspline_clamped, default_knots, mspline

import jax.numpy as jnp

from gwinferno import interpolation as I

SHP = [[7], [24], [3, 5], [1], [2, 2, 3]]
CASE = dict(
    kind=st.sampled_from(["M", "B", "LogX", "LogY", "LogXLogY"]), k=st.sampled_from([4, 4, 3, 2, 5]), extra=st.one_of(st.integers(0, 9), st.sampled_from([16, 30, 46])), lo=reals(-5.0, 5.0, special=[0.0]), w=logreals(0.2, 100.0, special=[1.0]),
    knots=st.sampled_from(["default", "default", "interior", "full"]), s=seeds, shape=shapes(SHP), as_numpy=st.booleans(),
)


def build(c, normalize=False):
    """the spline object of a case, its reference knots, its range in its own (possibly log) coordinate and the transform"""
    r = rng(c["s"])
    k, n = c["k"], c["k"] + c["extra"]
    logx = c["kind"] in ("LogX", "LogXLogY")
    lo, hi = fnum(c["lo"]), fnum(c["lo"] + c["w"])
    if logx:
        lo = fnum(np.exp(c["lo"] / 3))
        hi = fnum(lo * (1 + c["w"]))
    f = np.log if logx else (lambda v: np.asarray(v, float))
    inv = np.exp if logx else (lambda v: np.asarray(v, float))
    tr = (float(f(lo)), float(f(hi)))
    kw = {}
    inner = None
    if c["knots"] != "default":
        m = n - k + 2
        inner = np.linspace(tr[0], tr[1], m)
        if m > 2:
            inner[1:-1] += (tr[1] - tr[0]) / (m - 1) * 0.35 * (2 * r.random(m - 2) - 1)
    t = default_knots(n, k, tr, inner)
    if c["knots"] == "interior":
        kw["interior_knots"] = cast(inv(inner))
        t = default_knots(n, k, tr, f(cast(inv(inner))))
    elif c["knots"] == "full":
        if logx:
            kw["knots"] = cast(inv(t))
            t = f(kw["knots"])
        else:
            t = cast(t)
            kw["knots"] = t
    cls = dict(M=I.BasisSpline, B=I.BSpline, LogX=I.LogXBSpline, LogY=I.LogYBSpline, LogXLogY=I.LogXLogYBSpline)[c["kind"]]
    obj = cls(n, xrange=(lo, hi), k=k, normalize=normalize, **kw)
    return obj, t, tr, f, inv, n, k, (lo, hi), r


def points(c, r, t, tr, inv, lohi, shape):
    """inside, outside, on knots and on the ends of the range"""
    n = int(np.prod(shape))
    u = tr[0] + (tr[1] - tr[0]) * (0.001 + 0.998 * r.random(n))
    kind = r.integers(0, 12, n)
    ins = t[(t > tr[0]) & (t < tr[1])]
    if len(ins):
        u = np.where(kind == 0, r.choice(ins, n), u)
    w = tr[1] - tr[0]
    u = np.where(kind == 1, tr[0] - w * (0.02 + r.random(n)), np.where(kind == 2, tr[1] + w * (0.02 + r.random(n)), u))
    x = inv(u)
    x = np.where(kind == 3, lohi[0], np.where(kind == 4, lohi[1], x))
    return cast(x).reshape(shape)


@sub(
    fdict(**CASE), quick=150, thorough=5000, modes=("x64", "f32"), split=4,
    corpus=[
        dict(kind="B", k=4, extra=6, lo=0.0, w=1.0, knots="default", s=1, shape=[24], as_numpy=False),
        dict(kind="LogXLogY", k=4, extra=9, lo=1.0, w=50.0, knots="interior", s=2, shape=[24], as_numpy=False),
        dict(kind="LogX", k=3, extra=5, lo=1.0, w=50.0, knots="full", s=2, shape=[24], as_numpy=True),
        dict(kind="B", k=4, extra=16, lo=0.0, w=1.0, knots="default", s=3, shape=[20011], as_numpy=True),
        dict(kind="LogXLogY", k=4, extra=9, lo=1.0, w=50.0, knots="default", s=4, shape=[23, 1009], as_numpy=False),
        dict(kind="M", k=4, extra=5, lo=1.0, w=50.0, knots="default", s=5, shape=[40961], as_numpy=False),
    ],
)
def design_matrix(c):
    obj, t, tr, f, inv, n, k, lohi, r = build(c)
    x = points(c, r, t, tr, inv, lohi, c["shape"])
    keep = x.copy()
    got = arr(obj.bases(x if c["as_numpy"] else jnp.asarray(x)), "design matrix", (n,) + x.shape)
    require(np.array_equal(x, keep), "the input points were modified")
    y = f(x)
    inside = (x >= lohi[0]) & (x <= lohi[1])
    ref = (mspline if c["kind"] == "M" else bspline)(t, k, np.where(inside, y, 0.5 * (tr[0] + tr[1])), (tr[0] - 1, tr[1] + 1))
    # B-splines of order 2 have kinks, those of order >= 3 are smooth: errors of the coordinate move the value linearly
    scale = np.max(np.abs(ref)) if ref.size else 1.0
    at = tol(1e-9, 2e-5 * n * (1 + (abs(tr[0]) + abs(tr[1])) / (tr[1] - tr[0]))) * scale
    close(got[:, inside], ref[:, inside], f"{c['kind']} design matrix", rtol=0, atol=at, k=k, n=n, range=lohi, knots=c["knots"])
    oob = -np.inf if c["kind"] in ("LogY", "LogXLogY") else 0.0
    require(np.all(got[:, ~inside] == oob), f"{c['kind']} design matrix outside the range", x=x[~inside], got=got[:, ~inside])
    g = got[:, inside]
    require(np.all(g >= -at), "negative basis function", g=g.min() if g.size else 0)
    if c["kind"] != "M":
        close(g.sum(axis=0), 1.0, "sum of the basis functions", rtol=0, atol=n * at)
    require(np.all((np.abs(g) > 10 * at).sum(axis=0) <= k), "more than k basis functions overlap")
    return f"{c['kind']}/{c['knots']}" if np.any(inside) else None


@sub(
    fdict(
        kind=st.sampled_from(["M", "B", "LogY"]), k=st.sampled_from([4, 4, 3, 2, 5]), extra=st.integers(1, 9), lo=reals(-5.0, 5.0, special=[0.0]), w=logreals(1e-3, 100.0, special=[1.0]), close=logreals(1e-4, 0.5),
        at=reals(0.0, 1.0), clamped=st.booleans(), pair=st.booleans(), given=st.sampled_from(["interior", "full"]), s=seeds, as_numpy=st.booleans(),
    ),
    quick=80, thorough=3000, modes=("x64",), split=4,
    corpus=[
        dict(kind="B", k=4, extra=4, lo=0.0, w=1.0, close=4e-4, at=0.5, clamped=False, pair=True, given="interior", s=1, as_numpy=True),
        dict(kind="B", k=4, extra=2, lo=0.0, w=1.0, close=0.5, at=0.5, clamped=True, pair=False, given="full", s=1, as_numpy=True),
    ],
)
def crowded_and_clamped_knots(c):
    """narrow ranges, two knots close together, and knots that stop at the ends of the range"""
    r = rng(c["s"])
    k, n = c["k"], c["k"] + c["extra"]
    lo, hi = c["lo"], c["lo"] + c["w"]
    m = n - k + 2
    inner = np.linspace(lo, hi, m)
    if m > 3 and c["pair"]:
        j = 1 + min(int(c["at"] * (m - 3)), m - 4)
        inner[j + 1] = inner[j] + max(c["close"] * (inner[1] - inner[0]), 1e-5)
    clamped = c["clamped"]
    if clamped:
        t = np.concatenate([[lo] * (k - 1), inner, [hi] * (k - 1)])
    else:
        t = default_knots(n, k, (lo, hi), inner)
    kw = dict(interior_knots=inner) if c["given"] == "interior" and not clamped else dict(knots=t)
    cls = dict(M=I.BasisSpline, B=I.BSpline, LogY=I.LogYBSpline)[c["kind"]]
    obj = cls(n, xrange=(lo, hi), k=k, normalize=False, **kw)
    u = np.concatenate([lo + (hi - lo) * r.random(10), [lo, hi], inner[:-1] + np.diff(inner) * r.random(m - 1), inner, [lo - 0.1 * c["w"], hi + 0.1 * c["w"]]])
    got = arr(obj.bases(u if c["as_numpy"] else jnp.asarray(u)), "design matrix", (n,) + u.shape)
    inside = (u >= lo) & (u <= hi)
    x = np.where(inside, u, lo)
    ref = bspline_clamped(t, k, x)
    if c["kind"] == "M":
        ref = ref * (k / (t[k:] - t[:-k]))[:, None]
    step = np.min(np.diff(inner))
    at = (1e-9 + 1e-14 * (abs(lo) + abs(hi)) / step) * np.max(np.abs(ref))
    if k == 2 or step < 1e-4:
        at = at * 1e2
    close(got[:, inside], ref[:, inside], f"{c['kind']} design matrix", rtol=0, atol=at, k=k, n=n, t=t)
    oob = -np.inf if c["kind"] == "LogY" else 0.0
    require(np.all(got[:, ~inside] == oob), "design matrix outside the range", got=got[:, ~inside])
    return "clamped" if clamped else ("close pair" if c["pair"] else "narrow" if c["w"] < 0.1 else "plain")


@sub(
    fdict(xd=st.integers(4, 6), yd=st.integers(4, 6), kx=st.sampled_from([4, 3]), ky=st.sampled_from([4, 3]), s=seeds, shape=shapes([[7], [3, 5], [24]]), x0=reals(0.5, 5.0), xw=logreals(0.5, 50.0), y0=reals(-3.0, 3.0), yw=logreals(0.5, 5.0),
          logx=st.booleans()),
    quick=30, thorough=1000, modes=("x64",), split=4,
)
def bivariate_design_matrix(c):
    """the two-dimensional design matrix is the outer product of the two one-dimensional ones"""
    r = rng(c["s"])
    xr, yr = (c["x0"], c["x0"] + c["xw"]), (c["y0"], c["y0"] + c["yw"])
    f = np.log if c["logx"] else (lambda v: v)
    kw = dict(xbasis=I.LogXBSpline) if c["logx"] else {}
    obj = I.RectBivariateBasisSpline(c["xd"], c["yd"], xrange=xr, yrange=yr, kx=c["kx"], ky=c["ky"], normalize=False, **kw)
    x = (xr[0] + (xr[1] - xr[0]) * (0.001 + 1.1 * r.random(c["shape"])))
    y = (yr[0] + (yr[1] - yr[0]) * (0.001 + 1.1 * r.random(c["shape"])))
    got = arr(obj.bases(jnp.asarray(x), jnp.asarray(y)), "2D design matrix", (c["xd"], c["yd"]) + x.shape)
    fx = (f(xr[0]), f(xr[1]))
    bx = bspline(default_knots(c["xd"], c["kx"], fx), c["kx"], f(x), fx)
    by = bspline(default_knots(c["yd"], c["ky"], yr), c["ky"], y, yr)
    want = bx[:, None] * by[None, :]
    close(got, want, "2D design matrix", rtol=1e-8, atol=1e-9)
    cs = r.standard_normal((c["xd"], c["yd"]))
    close(arr(obj.project(jnp.asarray(got), jnp.asarray(cs)), "projection", x.shape), np.exp(np.einsum("ij...,ij->...", want, cs)), "2D projection", rtol=1e-7)
    return "log x" if c["logx"] else "linear"
