"""P09: natural cubic spline."""

import numpy as np
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import arr, cast, close, finite, fnum, require, sub, tol
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline

import jax
import jax.numpy as jnp

from gwinferno.interpolation import NaturalCubicUnivariateSpline as S

CASE = dict(n=st.sampled_from([4, 5, 8, 15, 60]), lo=reals(-5.0, 5.0), w=logreals(0.2, 100.0), amp=logreals(0.1, 10.0), uniform=st.sampled_from([True, False, False, "nearly", "nearly"]), eps=logreals(1e-4, 0.1), s=seeds, shape=shapes([[], [9], [3, 4]]))


def build(c):
    r = rng(c["s"])
    gaps = 0.15 + r.random(c["n"] - 1)
    if c["uniform"]:  # equally spaced, exactly or up to a small irregularity
        gaps = np.ones(c["n"] - 1) + (c["eps"] * (gaps - 0.15) if c["uniform"] == "nearly" else 0)
    x = np.concatenate([[0.0], np.cumsum(gaps)])
    x = cast(c["lo"] + c["w"] * x / x[-1])
    y = cast(c["amp"] * r.standard_normal(c["n"]))
    m = int(np.prod(c["shape"]))
    t = x[0] + (x[-1] - x[0]) * (1.2 * r.random(m) - 0.1)
    for j in range(min(m - 1, 4)):
        t[j] = x[[0, -1, 1, c["n"] // 2][j]]
    return r, x, y, cast(t).reshape(c["shape"])


@sub(fdict(**CASE, how=st.sampled_from(["call", "jit", "pytree", "object-through-jit", "vmap"])), quick=250, thorough=8000, modes=("x64", "f32"), split=2)
def against_scipy(c):
    """interpolates the data, natural at both ends, and survives every jax transformation"""
    r, x, y, t = build(c)
    ref = CubicSpline(x, y, bc_type="natural")
    want = ref(t)
    h = np.min(np.diff(x))
    at = tol(1e-8, 3e-4 * (1 + (abs(c["lo"]) + c["w"]) / c["w"])) * (np.max(np.abs(y)) + np.max(np.abs(want)) + 0.01 * np.max(np.abs(ref(t, 2))) * h**2)
    xj, yj, tj = jnp.asarray(x), jnp.asarray(y), jnp.asarray(t)
    if c["how"] == "call":
        got = S(xj, yj)(tj)
    elif c["how"] == "jit":
        got = jax.jit(lambda a, b, v: S(a, b)(v))(xj, yj, tj)
    elif c["how"] == "pytree":
        leaves, tree = jax.tree_util.tree_flatten(S(xj, yj))
        got = jax.tree_util.tree_unflatten(tree, leaves)(tj)
    elif c["how"] == "object-through-jit":
        got = jax.jit(lambda sp, v: sp(v))(S(xj, yj), tj)
    else:
        y2 = jnp.stack([yj, 2 * yj])
        both = arr(jax.vmap(lambda v: S(xj, v)(tj))(y2))
        close(both[1], 2 * both[0], "linearity in the data", rtol=tol(1e-9, 1e-4), atol=at)
        got = both[0]
    close(arr(got, "spline", t.shape), want, "natural cubic spline", rtol=tol(1e-9, 1e-4), atol=at, x=x, y=y, t=t)
    k = arr(S(xj, yj)(xj), "spline at its knots", x.shape)
    close(k, y, "spline at its knots", rtol=tol(1e-9, 1e-4), atol=at)
    inner = (t >= x[0]) & (t <= x[-1])
    return c["how"] if np.any(inner) and len(np.unique(t)) > 0 else None


@sub(fdict(**CASE), quick=80, thorough=3000, modes=("x64",))
def shape_of_the_curve(c):
    """second derivative vanishes at both ends; straight lines are reproduced; the gradient with respect to the data is the cardinal spline"""
    r, x, y, t = build(c)
    s = S(jnp.asarray(x), jnp.asarray(y))
    d2 = jax.vmap(jax.grad(jax.grad(lambda v: s(v))))
    scale = np.max(np.abs(CubicSpline(x, y, bc_type="natural")(x, 2))) + 1e-12
    ends = arr(d2(jnp.asarray([x[0] + 1e-9 * c["w"], x[-1] - 1e-9 * c["w"]])))
    close(ends / scale, [0.0, 0.0], "second derivative at the ends", rtol=0, atol=1e-5)
    line = arr(S(jnp.asarray(x), jnp.asarray(2.0 - 0.5 * x))(jnp.asarray(t)))
    close(line, 2.0 - 0.5 * t, "straight line", rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(x))))
    j = c["s"] % c["n"]
    tt = float(np.clip(np.ravel(t)[0], x[0], x[-1]))
    g = arr(jax.grad(lambda v: S(jnp.asarray(x), v)(tt))(jnp.asarray(y)), "gradient", (c["n"],))
    e = np.zeros(c["n"])
    e[j] = 1.0
    close(g[j], CubicSpline(x, e, bc_type="natural")(tt), "gradient with respect to the data", rtol=1e-7, atol=1e-8)
    return "curve"


@sub(fdict(**CASE, how=st.sampled_from(["call", "jit", "pytree", "object-through-jit", "mapped"]), own=st.booleans()), quick=80, thorough=3000, modes=("x64", "f32"))
def given_coefficients(c):
    """with given coefficients (half the second derivatives at the knots) the curve is that piecewise cubic, through every jax transformation"""
    r, x, y, t = build(c)
    if c["own"]:
        a = CubicSpline(x, y, bc_type="natural")(x, 2) / 2
    else:
        a = c["amp"] / (np.min(np.diff(x)) ** 2) * r.standard_normal(c["n"])
    a = cast(a)
    i = np.clip(np.searchsorted(x, t, side="right") - 1, 0, c["n"] - 2)
    h = np.diff(x.astype(float))[i]
    u = (t.astype(float) - x[i]) / h
    parts = [y[i] * (1 - u), y[i + 1] * u, ((1 - u) ** 3 - (1 - u)) * a[i] * h**2 / 3, (u**3 - u) * a[i + 1] * h**2 / 3]
    want = sum(parts)
    at = tol(1e-8, 3e-4 * (1 + (abs(c["lo"]) + c["w"]) / c["w"])) * (sum(np.max(np.abs(p)) for p in parts) + np.max(np.abs(y)) + np.max(np.abs(a)) * np.max(np.diff(x)) ** 2)
    xj, yj, aj, tj = (jnp.asarray(v) for v in (x, y, a, t))
    if c["how"] == "call":
        got = S(xj, yj, coefficients=aj)(tj)
    elif c["how"] == "jit":
        got = jax.jit(lambda *v: S(v[0], v[1], coefficients=v[2])(v[3]))(xj, yj, aj, tj)
    elif c["how"] == "pytree":
        got = jax.tree_util.tree_map(lambda v: 1.0 * v, S(xj, yj, coefficients=aj))(tj)
    elif c["how"] == "object-through-jit":
        got = jax.jit(lambda sp, v: sp(v))(S(xj, yj, coefficients=aj), tj)
    else:
        both = arr(jax.vmap(lambda v, w: S(xj, v, coefficients=w)(tj))(jnp.stack([yj, 2 * yj]), jnp.stack([aj, 2 * aj])))
        close(both[1], 2 * both[0], "linearity in the data", rtol=tol(1e-9, 1e-4), atol=at)
        got = both[0]
    close(arr(got, "spline", t.shape), want, "cubic spline of given coefficients", rtol=tol(1e-9, 1e-4), atol=at, x=x, y=y, a=a, t=t)
    return c["how"] + ("" if c["own"] else " arbitrary")
