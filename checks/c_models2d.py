"""P11: separable two-parameter B-spline models."""

import numpy as np
from checks_ref import powerlaw_ref, truncnorm_ref
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import HOW, arr, cast, close, finite, fnum, lift, require, sub, tol
from hypothesis import strategies as st
from model_ref import Curve, proportional

import jax
import jax.numpy as jnp

from gwinferno.models.bsplines import separable as M

class Case(dict):
    data = 0


COMMON = dict(n1=st.integers(4, 10), n2=st.integers(4, 10), s=seeds, amp=reals(0.1, 1.5), degree=st.sampled_from([3, 3, 2]), how=st.sampled_from(HOW), big=st.sampled_from([False] * 6 + [True]), share=st.sampled_from([False] * 4 + [True]))


def shared(c, x):
    """as many injections as posterior samples, and the same ones to begin with"""
    if c.get("share"):
        n = x[True].size
        x[False] = np.where(np.arange(n) < 3 * n // 4, x[True].reshape(-1), np.resize(x[False], n))
    return x



def uni(r, shape, lo, hi, out=0.15):
    x = lo + (hi - lo) * (1e-4 + (1 - 2e-4) * r.random(shape))
    w = hi - lo
    x = np.where(r.random(shape) < out, np.where(r.random(shape) < 0.5, hi + 0.1 * w, lo - 0.1 * (w if lo <= 0 else lo)), x)
    return cast(x)


def coef(r, n, amp, logy=True):
    return cast(amp * r.standard_normal(n)) if logy else cast(0.05 + r.random(n))


def check(c, model, args, kws, want, const, crt, what):
    """want: {True: posterior array, False: injection array} up to one constant"""
    pairs = []
    for pe in (True, False):
        a, k = args[pe], kws[pe]
        names = sorted(k)
        data = getattr(c, "data", 0)  # leading arguments which are samples, not parameters
        f = lift(lambda *p: model(*a[:data], *p[: len(p) - len(names)], pe_samples=pe, **dict(zip(names, p[len(p) - len(names) :]))), c["how"])
        got = arr(f(*a[data:], *[k[n] for n in names]), what, want[pe].shape)
        require(np.all(np.isfinite(got)) and np.all(got >= 0), f"{what}: negative or not finite", got=got)
        require(np.all(got[want[pe] == 0] == 0), f"{what}: not zero outside the support", got=got[want[pe] == 0])
        pairs.append((got, want[pe]))
    proportional(pairs, what, tol(1e-7, 5e-3), tol(1e-9, 2e-3), const, crt)


def T(ref, cs):
    return ref.norm_tol(cs, 1500 if ref.kind == "LogXLogY" else 1000)


J = jnp.asarray


@sub(
    fdict(which=st.sampled_from(["iid magnitude", "independent magnitude", "iid tilt", "independent tilt", "effective"]), per=st.booleans(), **COMMON),
    quick=48, thorough=1500, modes=("x64", "f32"), split=4,
    corpus=[dict(which=w, per=True, n1=7, n2=5, s=i, amp=1.0, degree=3, how="eager", big=False, share=i % 2 == 0) for i, w in enumerate(["iid magnitude", "independent magnitude", "iid tilt", "independent tilt", "effective"])],
)
def spins(c):
    r, c = rng(c["s"]), Case(c)
    PE, INJ = ([69, 100], [12000]) if c["big"] else ([3, 12], [40])
    d = c["degree"]
    kw = dict(degree=d) if d != 3 else {}
    n1, n2 = max(c["n1"], d + 1), max(c["n2"], d + 1)
    if c["big"]:
        n1, n2 = 4 * n1, 3 * n2
    lo, hi = (-1.0, 1.0) if "tilt" in c["which"] else (0.0, 1.0)
    x1, x2 = (shared(c, {True: uni(r, PE, lo, hi), False: uni(r, INJ, lo, hi)}) for _ in range(2))
    if c["which"].startswith("iid"):
        n2 = n1
        r1 = r2 = Curve("LogY", n1, d + 1, lo, hi)
        c1 = c2 = coef(r, n1, c["amp"])
        cls = M.BSplineIIDSpinMagnitudes if "mag" in c["which"] else M.BSplineIIDSpinTilts
        model = cls(n1, J(x1[True]), J(x2[True]), J(x1[False]), J(x2[False]), **kw)
        args = {p: (J(c1),) for p in (True, False)}
        norm = True
    elif c["which"] == "effective":
        k1, k2 = ({"normalize": True}, {"normalize": True}) if c["per"] else ({}, {})
        norm = c["per"]
        x1 = shared(c, {True: uni(r, PE, -1, 1), False: uni(r, INJ, -1, 1)})
        r1, r2 = Curve("B", n1, d + 1, -1, 1), Curve("B", n2, d + 1, 0, 1)
        c1, c2 = coef(r, n1, 1, False), coef(r, n2, 1, False)
        model = M.BSplineEffectiveSpinDims(n1, n2, J(x1[True]), J(x2[True]), J(x1[False]), J(x2[False]), kwargs_e=k1, kwargs_p=k2, **kw)
        args = {p: (J(c1), J(c2)) for p in (True, False)}
    else:
        k1, k2, hi1, hi2 = {}, {}, hi, hi
        if c["per"]:  # a different range for each component
            hi1, hi2 = 0.8, 0.9
            k1, k2 = {"xrange": (lo, hi1)}, {"xrange": (lo, hi2)}
        r1, r2 = Curve("LogY", n1, d + 1, lo, hi1), Curve("LogY", n2, d + 1, lo, hi2)
        c1, c2 = coef(r, n1, c["amp"]), coef(r, n2, c["amp"])
        cls = M.BSplineIndependentSpinMagnitudes if "mag" in c["which"] else M.BSplineIndependentSpinTilts
        model = cls(n1, n2, J(x1[True]), J(x2[True]), J(x1[False]), J(x2[False]), kwargs1=k1, kwargs2=k2, **kw)
        args = {p: (J(c1), J(c2)) for p in (True, False)}
        norm = True
    want = {p: r1.g(x1[p], c1) * r2.g(x2[p], c2) for p in (True, False)}
    const = 1 / (r1.integral(c1) * r2.integral(c2)) if norm else 1.0
    crt = T(r1, c1) + T(r2, c2) if norm else tol(1e-8, 2e-3)
    check(c, model, args, {True: {}, False: {}}, want, const, crt, c["which"])
    return c["which"]


def masses(r, shape, mmin, mmax):
    m = np.exp(np.log(mmin) + np.log(mmax / mmin) * (0.001 + 0.998 * r.random(shape)))
    return cast(np.where(r.random(shape) < 0.12, np.where(r.random(shape) < 0.5, mmin * 0.8, mmax * 1.2), m))


@sub(
    fdict(which=st.sampled_from(["spline m1, power-law q", "power-law+peak m1, spline q", "spline m1, spline q", "iid masses", "independent masses"]), beta=reals(-3.0, 5.0, special=[0.0, 1.0, -1.0]),
          mmin=reals(2.0, 6.0), mmax=reals(50.0, 110.0), default_beta=st.booleans(), limits=st.sampled_from(["given", "given", "default"]), un=st.sampled_from([None, None, 1, 2]), **COMMON),
    quick=48, thorough=1500, modes=("x64", "f32"), split=4,
    corpus=[dict(which=w, beta=1.1, mmin=3.0, mmax=90.0, default_beta=False, limits=l, un=None, n1=7, n2=5, s=i, amp=1.0, degree=3, how="eager", big=False, share=i % 2 == 0) for l in ("given", "default") for i, w in enumerate(["spline m1, power-law q", "power-law+peak m1, spline q", "spline m1, spline q", "iid masses", "independent masses"])],
)
def mass_models(c):
    r, c = rng(c["s"]), Case(c)
    PE, INJ = ([69, 100], [12000]) if c["big"] else ([3, 12], [40])
    d = c["degree"]
    kw = dict(degree=d) if d != 3 else {}
    n1, n2 = max(c["n1"], d + 1), max(c["n2"], d + 1)
    if c["big"]:
        n1, n2 = 4 * n1, 3 * n2
    mmin, mmax, b = fnum(c["mmin"]), fnum(c["mmax"]), fnum(c["beta"])
    if 0 < abs(1 + b) < 0.1:
        b = 0.5
    P = (True, False)
    dflt, w = c["limits"] == "default", c["which"]
    if dflt and w != "power-law+peak m1, spline q":  # the documented limits
        mmin, mmax = 3.0 if w == "spline m1, spline q" else 2.0, 100.0
    given = lambda **k: {} if dflt else k
    free = lambda i: {"normalize": False} if c["un"] == i else {}  # one of the two curves left unnormalised
    m1 = shared(c, {p: masses(r, PE if p else INJ, mmin, mmax) for p in P})
    q = {p: cast(0.02 + 1.08 * r.random(m1[p].shape)) for p in P}
    kws = {p: {} for p in P}
    if w == "spline m1, power-law q":
        ref, cs = Curve("LogXLogY", n1, d + 1, mmin, mmax), coef(r, n1, c["amp"])
        model = M.BSplinePrimaryPowerlawRatio(n1, J(m1[True]), J(m1[False]), **given(mmin=mmin, mmax=mmax), **kw)
        c.data = 2
        cut = fnum(mmin * (1 + 0.3 * (c["s"] % 2)))
        args = {p: (J(m1[p]), J(q[p]), b, cut, J(cs)) for p in P}
        low = {p: np.minimum(cut / m1[p], 1 - 1e-9) for p in P}
        for p in P:  # stay off the moving edge
            q[p] = cast(np.where(np.abs(q[p] - low[p]) < 1e-4, 0.5, q[p]))
            args[p] = (J(m1[p]), J(q[p]), b, cut, J(cs))
        want = {p: ref.g(m1[p], cs) * np.where(m1[p] > cut * 1.0001, powerlaw_ref(q[p], b, low[p], 1.0), 0.0) for p in P}
        const, crt = 1 / ref.integral(cs), T(ref, cs)
    elif w == "power-law+peak m1, spline q":
        qmin = 0.0 if dflt else fnum(0.1)
        ref, cs = Curve("LogY", n1, d + 1, qmin, 1.0), coef(r, n1, c["amp"])
        model = M.PLPeakPrimaryBSplineRatio(n1, J(q[True]), J(q[False]), **given(qmin=qmin), **kw)
        c.data = 1
        a, mp, sg, lam = fnum(-b - 1.5), 35.0, 5.0, fnum(0.3)
        args = {p: (J(m1[p]), a, mmin, mmax, mp, sg, lam, J(cs)) for p in P}
        pm = {p: (1 - lam) * powerlaw_ref(m1[p], a, mmin, mmax) + lam * truncnorm_ref(m1[p], mp, sg, mmin, mmax) for p in P}
        want = {p: pm[p] * ref.g(q[p], cs) for p in P}
        if abs(1 + a) < 0.1:
            return None
        const, crt = 1 / ref.integral(cs), T(ref, cs) + tol(1e-7, 5e-3)
    elif w == "spline m1, spline q":
        m2min = 3.0 if dflt else fnum(mmin * 0.8)
        r1, r2 = Curve("LogXLogY", n1, d + 1, mmin, mmax), Curve("LogY", n2, d + 1, m2min / mmax, 1.0)
        c1, c2 = coef(r, n1, c["amp"]), coef(r, n2, c["amp"])
        model = M.BSplinePrimaryBSplineRatio(n1, n2, J(m1[True]), J(m1[False]), J(q[True]), J(q[False]), **given(mmax=mmax, m1min=mmin, m2min=m2min), kwargs_m=free(1), kwargs_q=free(2), **kw)
        args = {p: (J(c1), J(c2)) for p in P}
        want = {p: r1.g(m1[p], c1) * r2.g(q[p], c2) for p in P}
        const, crt = 1 / ((1 if c["un"] == 1 else r1.integral(c1)) * (1 if c["un"] == 2 else r2.integral(c2))), T(r1, c1) + T(r2, c2)
    else:
        m2 = {p: cast(np.maximum(m1[p] * q[p], 1.0)) for p in P}
        qq = {p: np.asarray(m2[p] / m1[p]) for p in P}
        for p in P:  # equal masses up to rounding are decided by the last bit
            m2[p] = cast(np.where(np.abs(qq[p] - 1) < 1e-4, m1[p] * 0.9, m2[p]))
            eq = r.random(m1[p].shape) < 0.15  # exactly equal masses are allowed
            eq.ravel()[:2] = True
            m2[p] = np.where(eq, m1[p], m2[p])
            qq[p] = m2[p] / m1[p]
        if c["default_beta"]:
            b = 0.0
        else:
            kws = {p: dict(beta=b) for p in P}
        if w == "iid masses":
            r1 = r2 = Curve("LogXLogY", n1, d + 1, mmin, mmax)
            c1 = c2 = coef(r, n1, c["amp"])
            model = M.BSplineIIDComponentMasses(n1, J(m1[True]), J(m2[True]), J(m1[False]), J(m2[False]), **given(mmin=mmin, mmax=mmax), **kw)
            args = {p: (J(c1),) for p in P}
            cut = {p: (qq[p] <= 1) for p in P}
        else:
            mmin2, mmax2 = (mmin, mmax) if dflt else (fnum(mmin * (0.7 + 0.6 * r.random())), fnum(mmax * 0.8))
            r1, r2 = Curve("LogXLogY", n1, d + 1, mmin, mmax), Curve("LogXLogY", n2, d + 1, mmin2, mmax2)
            c1, c2 = coef(r, n1, c["amp"]), coef(r, n2, c["amp"])
            model = M.BSplineIndependentComponentMasses(n1, n2, J(m1[True]), J(m2[True]), J(m1[False]), J(m2[False]), **given(mmin1=mmin, mmax1=mmax, mmin2=mmin2, mmax2=mmax2), kwargs1=free(1), kwargs2=free(2), **kw)
            args = {p: (J(c1), J(c2)) for p in P}
            cut = {p: np.ones(qq[p].shape, bool) for p in P}
        want = {p: r1.g(m1[p], c1) * r2.g(m2[p], c2) * qq[p] ** b * cut[p] for p in P}
        un = c["un"] if w == "independent masses" else None
        const, crt = 1 / ((1 if un == 1 else r1.integral(c1)) * (1 if un == 2 else r2.integral(c2))), T(r1, c1) + T(r2, c2)
    check(c, model, args, kws, want, const, crt, w)
    return w
