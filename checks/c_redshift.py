"""P12: redshift models."""

import numpy as np
from checks_ref import trapz
from cosmo_ref import Ref
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import HOW, arr, cast, close, finite, fnum, lift, require, sub, tol
from hypothesis import strategies as st
from model_ref import Curve, proportional

import jax
import jax.numpy as jnp

from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as COSMO
from gwinferno.interpolation import LogXBSpline, BSpline
from gwinferno.models.bsplines.single import BSplineRedshift
from gwinferno.models.parametric.parametric import PowerlawRedshiftModel
from gwinferno.models.spline_perturbation import PowerlawSplineRedshiftModel

REF = Ref([0.3065, 0.0, 67.9])
J = jnp.asarray
P = (True, False)


def redshifts(c, r):
    """posterior samples and injections whose ranges overlap, neither containing the other in general"""
    a, b = sorted([c["z0"], c["z1"]])
    zp = np.exp(np.log(0.01) + np.log(c["top1"] / 0.01) * r.random([69, 60] if c["big"] else [3, 20]))
    zi = np.exp(np.log(0.005) + np.log(c["top2"] / 0.005) * r.random([9000 if c["big"] else 60]))
    zp[0, 0], zp[-1, -1] = a, c["top1"]
    zi[0], zi[-1] = b, c["top2"]
    z = {True: cast(zp), False: cast(zi)}
    return z, max(z[True].min(), z[False].min()), min(z[True].max(), z[False].max())


def quad(f, lo, hi, n=40, m=12):
    x, w = np.polynomial.legendre.leggauss(m)
    e = np.linspace(lo, hi, n + 1)
    h = np.diff(e)[:, None]
    t = (e[:-1, None] + h * (x + 1) / 2).ravel()
    return float(np.sum(f(t) * np.broadcast_to(h * w / 2, (n, m)).ravel()))


CASE = dict(z0=reals(0.006, 0.05), z1=reals(0.006, 0.05), top1=reals(0.4, 2.2), top2=reals(0.4, 2.2), lamb=reals(-4.0, 8.0, special=[0.0, 1.0, 2.7]), s=seeds, how=st.sampled_from(HOW), big=st.sampled_from([False] * 7 + [True]))


@sub(fdict(**CASE), quick=60, thorough=3000, modes=("x64", "f32"), split=2)
def power_law(c):
    """p(z) = dVc/dz (1+z)^(lambda-1) / N on the common redshift range, zero above it; N is the comoving hypervolume integral"""
    r = rng(c["s"])
    z, zlo, zhi = redshifts(c, r)
    model = PowerlawRedshiftModel(J(z[True]), J(z[False]))
    close([float(model.zmin), float(model.zmax)], [zlo, zhi], "common redshift range", rtol=1e-6)
    for lam in (fnum(c["lamb"]), fnum(1.0 - c["lamb"] / 3)):
        f = lambda zz, lam: lift(lambda l: model(zz, l), c["how"])(lam)
        N = quad(lambda t: REF.dVcdz(t) * (1 + t) ** (lam - 1), zlo, zhi)
        close(float(model.normalization(lam)), N, "normalization", rtol=tol(1e-4, 5e-4))
        for p in P:
            got = arr(f(J(z[p]), lam), "redshift density", z[p].shape)
            want = np.where(z[p] <= zhi, REF.dVcdz(z[p]) * (1 + z[p]) ** (lam - 1) / N, 0.0)
            require(np.all(got[z[p] > zhi] == 0), "density above the common range", got=got[z[p] > zhi])
            close(got, want, "redshift density", rtol=tol(2e-4, 8e-4))
            if hasattr(model, "log_prob"):
                lp = arr(model.log_prob(J(z[p]), lam), "log density", z[p].shape)
                ins = z[p] <= zhi
                close(lp[ins], np.log(got[ins]), "log density against density", rtol=0, atol=tol(1e-8, 1e-4))
                require(np.all(lp[~ins] < -1e30), "log density above the common range", lp=lp[~ins])
    return "cut" if np.any(z[True] > zhi) or np.any(z[False] > zhi) else "no cut"


@sub(fdict(n=st.integers(4, 12), amp=reals(0.0, 1.5), basis=st.sampled_from(["LogX", "LogX", "B"]), **CASE), quick=48, thorough=1500, modes=("x64", "f32"), split=4)
def power_law_spline(c):
    """the power law times the exponential of a spline in log redshift"""
    r = rng(c["s"])
    z, zlo, zhi = redshifts(c, r)
    kw = {} if c["basis"] == "LogX" else dict(basis=BSpline)
    model = PowerlawSplineRedshiftModel(c["n"], J(z[True]), J(z[False]), **kw)
    curve = Curve(c["basis"], c["n"], 4, zlo, zhi)
    cs, lam = cast(c["amp"] * r.standard_normal(c["n"])), fnum(c["lamb"])
    ref = lambda t: REF.dVcdz(t) * (1 + t) ** (lam - 1) * np.exp(curve.spline(np.clip(t, zlo, zhi), cs))
    N = quad(ref, zlo, zhi)
    close(float(model.normalization(lam, J(cs))), N, "normalization", rtol=tol(2e-3, 3e-3))
    f = lambda zz, lam, cs: lift(lambda l, v: model(zz, l, v), c["how"])(lam, cs)
    model(J(z[False]), lam + 0.5, J(-cs))  # asked about another population before
    pairs = []
    for p in P:
        got = arr(f(J(z[p]), lam, J(cs)), "redshift density", z[p].shape)
        require(np.all(got[z[p] > zhi] == 0), "density above the common range", got=got[z[p] > zhi])
        ok = (z[p] > zlo * 1.0001) & (z[p] < zhi * 0.9999)
        pairs.append((got[ok], ref(z[p][ok])))
    proportional(pairs, "redshift density", tol(1e-4, 3e-3), tol(1e-9, 1e-4), 1 / N, 4e-3)
    return f"{c['basis']} spline"


@sub(
    fdict(n=st.integers(4, 12), amp=reals(0.0, 1.5), zmax=st.sampled_from([None, 2.3, 3.0]), given=st.sampled_from(["exact", "code"]), norm=st.sampled_from([False, False, True]), scale=logreals(1e-3, 1e3), **{k: v for k, v in CASE.items() if k != "lamb"}),
    quick=36, thorough=1200, modes=("x64", "f32"), split=4,
)
def spline(c):
    """R(z) = exp(spline) dVc/dz / (1+z), normalised on the common range with the supplied volume elements"""
    r = rng(c["s"])
    z, zlo, zhi = redshifts(c, r)
    kw = {} if c["zmax"] is None else dict(zmax=c["zmax"])
    kw["normalize"] = c["norm"]
    # the model multiplies the caller's volume elements: give it ones which are not the cosmology's
    dv = {p: cast(REF.dVcdz(z[p]) * (c["scale"] if c["given"] == "exact" else 1.0)) for p in P}
    fac = c["scale"] if c["given"] == "exact" else 1.0
    model = BSplineRedshift(c["n"], J(z[True]), J(z[False]), J(dv[True]), J(dv[False]), **kw)
    curve = Curve("LogX", c["n"], 4, 1e-4, 2.3 if c["zmax"] is None else c["zmax"])
    cs = cast(c["amp"] * r.standard_normal(c["n"]))
    div = 1.0
    if c["norm"]:
        cs = cast(0.1 + r.random(c["n"]))
        div = curve.integral(cs)
    ref = lambda t: REF.dVcdz(t) / (1 + t) * np.exp(curve.spline(t, cs) / div)
    N = quad(ref, zlo, zhi)
    close(float(model.normalization(J(cs))), N, "normalization", rtol=tol(1e-3, 2e-3) * (4 if c["norm"] else 1))
    pairs = []
    for p in P:
        f = lift(lambda v: model(v, pe_samples=p), c["how"])
        got = arr(f(J(cs)), "redshift density", z[p].shape)
        pairs.append((got, fac * ref(z[p])))
    proportional(pairs, "redshift density", tol(1e-5, 1e-3) * (300 if c["norm"] else 1), tol(1e-9, 1e-4), 1 / N, 5e-3 * (3 if c["norm"] else 1))
    return "normalised exponent" if c["norm"] else "free exponent"
