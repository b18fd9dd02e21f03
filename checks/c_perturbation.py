"""P13: power laws modulated by exponentiated splines in mass (and mass ratio)."""

import numpy as np
from checks_ref import powerlaw_ref, smooth_ref
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import HOW, arr, cast, close, finite, fnum, lift, require, sub, tol
from hypothesis import strategies as st
from model_ref import Curve, proportional

import jax
import jax.numpy as jnp

from gwinferno.models import spline_perturbation as M

J = jnp.asarray
P = (True, False)


def masses(r, mmin, mmax, big=False):
    out = {}
    for p, shape in ((True, [3, 15]), (False, [50])) if not big else ((True, [69, 80]), (False, [12000])):
        m = np.exp(np.log(mmin) + np.log(mmax / mmin) * (0.005 + 0.99 * r.random(shape)))
        out[p] = cast(np.where(r.random(shape) < 0.12, np.where(r.random(shape) < 0.5, mmin * 0.8, mmax * 1.2), m))
    return out


CASE = dict(n=st.integers(4, 16), alpha=reals(-2.0, 5.0, special=[0.0, 1.0, 2.35]), beta=reals(-3.0, 5.0, special=[0.0, -1.0]), mmin=reals(2.0, 8.0), mmax=reals(50.0, 110.0), amp=reals(0.0, 1.5), s=seeds, how=st.sampled_from(HOW), big=st.sampled_from([False] * 7 + [True]), dflt=st.sampled_from([False, False, True]), k=st.sampled_from([4, 4, 4, 3, 5, 2]))


def fine(lo, hi, f, n=4000):
    t = np.exp(np.linspace(np.log(lo), np.log(hi), n))
    y = f(t) * t
    return float(np.sum((y[1:] + y[:-1]) / 2) * np.log(hi / lo) / (n - 1))


@sub(fdict(**CASE, shrink=st.sampled_from([None, None, 1.2]), m2=reals(0.5, 1.0)), quick=48, thorough=1500, modes=("x64", "f32"), split=4)
def power_law_ratio(c):
    """p(m1) ∝ m1^-alpha exp(spline(log m1)) on [mmin, mmax], times a normalised power law in mass ratio"""
    r = rng(c["s"])
    mmin, mmax, a, b = fnum(c["mmin"]), fnum(c["mmax"]), fnum(c["alpha"]), fnum(c["beta"])
    a = 1.5 if 0 < abs(1 - a) < 0.1 else a
    b = 0.5 if 0 < abs(1 + b) < 0.1 else b
    m2min = fnum(c["m2"] * mmin)
    if c["dflt"]:  # the documented limits
        mmin = m2min = 3.0
        mmax = 100.0
    lims = {} if c["dflt"] else dict(mmin=mmin, m2min=m2min, mmax=mmax)
    m1 = masses(r, mmin, mmax, c["big"])
    q = {p: cast(0.02 + 1.08 * r.random(m1[p].shape)) for p in P}
    if c["k"] != 4:
        lims["k"] = c["k"]
    n = max(c["n"], c["k"])
    model = M.PowerlawBasisSplinePrimaryPowerlawRatio(n, J(m1[True]), J(m1[False]), **lims)
    curve = Curve("B", n, c["k"], np.log(mmin), np.log(mmax))
    cs = cast(c["amp"] * r.standard_normal(n))
    lo, hi = (mmin, mmax) if c["shrink"] is None else (fnum(mmin * c["shrink"]), fnum(mmax / c["shrink"]))  # the sampled mass range may be narrower
    g = lambda m: powerlaw_ref(m, -a, lo, hi) * np.exp(curve.spline(np.log(np.clip(m, mmin, mmax)), cs))
    N = fine(lo, hi, g)
    h = (mmax - mmin) / 999
    crt = 2e-3 + 1.5 * h * float(np.max(g(np.array([lo * 1.0001, hi * 0.9999])))) / N + h**2 * (abs(a) + 3 + c["amp"] * c["n"]) ** 2 / mmin**2
    kw = dict(alpha=a, mmin=lo, mmax=hi, cs=J(cs))
    par = (a, lo, hi, J(cs))
    f = lambda m, x: lift(lambda a, lo, hi, cs, b: model(m, x, beta=b, alpha=a, mmin=lo, mmax=hi, cs=cs), c["how"])(*par, b)
    fm = lambda m: lift(lambda a, lo, hi, cs: model.p_m1(m, alpha=a, mmin=lo, mmax=hi, cs=cs), c["how"])(*par)
    model(J(m1[False]), J(q[False]), beta=b + 0.3, alpha=a + 0.7, mmin=mmin, mmax=mmax, cs=J(-cs))  # asked about another population before
    pairs, pairsm = [], []
    for p in P:
        low = np.minimum(m2min / m1[p], 1 - 1e-9)
        q[p] = cast(np.where(np.abs(q[p] - low) < 1e-4, 0.9999 if low.max() < 0.9 else 2.0, q[p]))
        edge = (np.abs(m1[p] / lo - 1) < 1e-4) | (np.abs(m1[p] / hi - 1) < 1e-4)
        got = arr(f(J(m1[p]), J(q[p])), "joint density", m1[p].shape)
        gm = arr(fm(J(m1[p])), "primary density", m1[p].shape)
        wm = g(m1[p])
        w = wm * np.where(m1[p] > m2min, powerlaw_ref(q[p], b, low, 1.0), 0.0)
        ok = ~edge
        require(np.all(got[ok & (w == 0)] == 0), "joint density outside its support", got=got[ok & (w == 0)])
        require(np.all(gm[ok & (wm == 0)] == 0), "primary density outside its support", got=gm[ok & (wm == 0)])
        pairs.append((got[ok], w[ok]))
        pairsm.append((gm[ok], wm[ok]))
    rt = tol(1e-7, 5e-3)
    proportional(pairsm, "perturbed power law in primary mass", rt, tol(1e-9, 1e-3), 1 / N, crt)
    proportional(pairs, "perturbed power law in both masses", rt, tol(1e-9, 1e-3), 1 / N, crt)
    nrm = float(model.norm_p_m1(alpha=a, mmin=lo, mmax=hi, cs=J(cs)))
    close(nrm, N, "normalisation of the perturbed power law", rtol=crt)
    if c["amp"] == 0 and c["shrink"] is None:
        close(nrm, 1.0, "an unperturbed power law is already normalised", rtol=crt)
    d = 0.5 + 5 * c["m2"]
    x = cast(lo + d * np.array([-0.5, 0.3, 0.5, 0.7, 1.2, 3.0]))
    sm = arr(model.smoothing(J(x), lo, d), "smoothing window", x.shape)
    close(sm, smooth_ref(d, x, lo), "smoothing window", rtol=0, atol=tol(1e-7, 5e-4))
    return "narrower range" if c["shrink"] else "full range"


@sub(fdict(nq=st.integers(4, 10), **CASE, lo=st.sampled_from([1.0, 1.0, 1.3, 2.5]), hi=st.sampled_from([1.0, 1.0, 1.4])), quick=12, thorough=200, modes=("x64",), split=4)
def spline_ratio(c):
    """both masses modulated: density proportional to the product, normalised numerically over both"""
    r = rng(c["s"])
    mmin, mmax, a, b = fnum(c["mmin"]), fnum(c["mmax"]), fnum(c["alpha"]), fnum(c["beta"])
    a = 1.5 if 0 < abs(1 - a) < 0.1 else a
    b = 0.5 if 0 < abs(1 + b) < 0.1 else b
    if c["dflt"]:
        mmin, mmax = 2.0, 100.0
    lims = {} if c["dflt"] else dict(mmin=mmin, mmax=mmax)
    m1 = masses(r, mmin, mmax, c["big"])
    q = {p: cast(0.02 + 0.97 * r.random(m1[p].shape)) for p in P}
    mlo, mhi = (mmin * c["lo"], mmax / c["hi"]) if c["s"] % 2 else (mmin, mmax / c["hi"])  # the masses allowed at evaluation may be fewer
    for p in P:
        q[p] = np.where(np.abs(q[p] - mlo / m1[p]) < 1e-3, 0.9, q[p])
        q[p] = np.where(np.abs(q[p] - mlo / m1[p]) < 1e-3, 0.95, q[p])
    if c["k"] != 4:
        lims["k"] = c["k"]
    n, nq = max(c["n"], c["k"]), max(c["nq"], c["k"])
    model = M.PowerlawBasisSplinePrimaryRatio(n, nq, J(m1[True]), J(q[True]), J(m1[False]), J(q[False]), **lims)
    cm, cq = Curve("B", n, c["k"], np.log(mmin), np.log(mmax)), Curve("B", nq, c["k"], 0.0, 1.0)
    cs, vs = c["amp"] * r.standard_normal(n), c["amp"] * r.standard_normal(nq)
    g = lambda m, x: (powerlaw_ref(m, -a, mlo, mhi) * np.exp(cm.spline(np.log(np.clip(m, mmin, mmax)), cs))
                      * np.where(m > mlo, powerlaw_ref(x, b, np.minimum(mlo / m, 1 - 1e-9), 1.0), 0) * np.exp(cq.spline(np.clip(x, 0, 1), vs)))
    u = (np.arange(300) + 0.5) / 300
    ms = mlo * (mhi / mlo) ** u
    lo = mlo / ms
    X = lo[:, None] + (1 - lo[:, None]) * u[None, :]
    N = float(np.sum(g(np.broadcast_to(ms[:, None], X.shape), X) * (1 - lo[:, None]) / 300 * ms[:, None]) * np.log(mhi / mlo) / 300)
    model(J(m1[False]), J(q[False]), alpha=a + 0.7, mmax=mmax, mmin=mmin, cs=J(-cs), beta=b + 0.3, vs=J(vs[::-1].copy()))  # asked about another population before
    pairs = []
    for p in P:
        kw = dict(alpha=a, mmax=mhi, cs=J(cs), beta=b, vs=J(vs))
        if c["s"] % 2:
            kw["mmin"] = mlo
        names = sorted(kw)
        f = lift(lambda *v: model(J(m1[p]), J(q[p]), **dict(zip(names, v))), c["how"])
        got = arr(f(*[kw[k] for k in names]), "joint density", m1[p].shape)
        w = g(m1[p], q[p])
        require(np.all(got[w == 0] == 0), "joint density outside its support", got=got[w == 0])
        pairs.append((got, w))
    proportional(pairs, "doubly perturbed power law", 1e-7, 1e-9, 1 / N, 0.15)
    return "narrower" if mlo > mmin or mhi < mmax else "joint"
