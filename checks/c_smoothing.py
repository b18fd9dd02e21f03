"""P14: smoothing penalty and the ready-made spline coefficient priors."""

import numpy as np
import scipy.stats as ss
from gens import fdict, logreals, reals, rng, seeds
from harness import HOW, arr, cast, close, fnum, lift, require, sub, tol
from hypothesis import strategies as st

import jax
import jax.numpy as jnp
import numpyro
from numpyro import handlers

from gwinferno.models.bsplines.smoothing import apply_difference_prior
from gwinferno.pipeline import utils as U


def penalty(c, tau, d):
    """- tau/2 |D^d c|^2 from the definition of the finite difference, not from np.diff"""
    w = [1.0]
    for _ in range(d):
        w = np.convolve(w, [1.0, -1.0])
    n = len(c) - d
    v = np.array([sum(w[j] * c[i + d - j] for j in range(d + 1)) for i in range(max(n, 0))])
    return -0.5 * tau * float(np.sum(v * v)), 0.5 * tau * float(np.sum((np.abs(w).sum() * np.max(np.abs(c), initial=0)) ** 2) * max(n, 1))


@sub(
    fdict(s=seeds, n=st.integers(2, 60), tau=logreals(1e-4, 1e4, special=[1.0]), degree=st.integers(1, 5), scale=logreals(1e-2, 30.0), offset=reals(-20.0, 20.0, special=[0.0]), default=st.booleans(), how=st.sampled_from(HOW)),
    quick=240, thorough=10000, modes=("x64", "f32"), split=4,
)
def difference_penalty(c):
    """the log penalty is -tau/2 |D^degree c|^2; zero exactly on polynomials of lower degree; quadratic, linear in tau, mirror symmetric"""
    r = rng(c["s"])
    d = 1 if c["default"] else c["degree"]
    n = max(c["n"], d + 1)
    cs = cast(c["offset"] + c["scale"] * r.standard_normal(n))
    tau = fnum(c["tau"])
    kw = {} if c["default"] else dict(degree=d)
    f = lambda v, t: apply_difference_prior(v, t, **kw)
    f = lift(f, c["how"])
    want, mag = penalty(cs, tau, d)
    at = tol(1e-11, 3e-6) * mag
    got = float(arr(f(jnp.asarray(cs), tau), "penalty", ()))
    close(got, want, "difference penalty", rtol=tol(1e-9, 1e-4), atol=at, degree=d, n=n, tau=tau)
    require(got <= at, "a log penalty is not positive", got=got)
    close(float(f(jnp.asarray(cs[::-1].copy()), tau)), want, "penalty of the mirrored coefficients", rtol=tol(1e-9, 1e-4), atol=at)
    close(float(f(jnp.asarray(cs), cast(3 * tau))), 3 * want, "penalty against its strength", rtol=tol(1e-9, 1e-4), atol=3 * at)
    # polynomials of degree < d in the index are not penalised at all
    i = np.linspace(-1, 1, n)
    poly = cast(np.polyval(r.standard_normal(d), i))
    p, pm = penalty(poly, tau, d)
    close(float(f(jnp.asarray(poly), tau)), 0.0, "penalty of a polynomial", rtol=0, atol=tol(1e-13, 1e-6) * pm + tol(1e-13, 1e-6) * tau)
    g = arr(jax.grad(lambda v: f(v, tau))(jnp.asarray(cs)), "gradient", (n,))
    D = np.diff(np.eye(n), n=d, axis=0)
    close(g, -tau * D.T @ (D @ cs), "gradient of the penalty", rtol=tol(1e-8, 1e-3), atol=tol(1e-10, 1e-5) * tau * np.abs(D).sum() * np.max(np.abs(cs)))
    return f"degree {d}"


def trace(f, values, seed):
    def model():
        return f()

    tr = handlers.trace(handlers.seed(handlers.substitute(model, data=values), jax.random.PRNGKey(seed))).get_trace()
    return tr


def run(f, seed, values=None):
    out = {}

    def model():
        out["r"] = f()

    m = handlers.substitute(model, data=values) if values else model
    tr = handlers.trace(handlers.seed(m, jax.random.PRNGKey(seed))).get_trace()
    return out["r"], tr


def site_logp(site):
    v = site["fn"].log_prob(site["value"])
    return float(jnp.sum(v))


def check_sites(tr, expected, what):
    """expected: {coefficient site: (n, sigma, penalty site, tau, degree, prepend zero)}"""
    names = {k for k, s in tr.items() if s["type"] == "sample"}
    want = set()
    for k, e in expected.items():
        want |= {k, e[2]}
    require(names == want, f"{what}: sampled quantities", got=sorted(names), want=sorted(want))
    for k, (n, sig, pen, tau, deg, zero) in expected.items():
        v = arr(tr[k]["value"], k, (n,))
        require(not tr[k].get("is_observed", False), f"{what}: {k} is not a free parameter")
        close(site_logp(tr[k]), np.sum(ss.norm(0, sig).logpdf(v)), f"{what}: prior of {k}", rtol=tol(1e-9, 1e-4), atol=tol(1e-9, 1e-3))
        full = np.concatenate([[0.0], v]) if zero else v
        w, mag = penalty(full, tau, deg)
        close(site_logp(tr[pen]), w, f"{what}: {pen}", rtol=tol(1e-9, 1e-4), atol=tol(1e-11, 3e-6) * mag)


NAME = st.sampled_from([None, None, "peak", "cont_1"])
SIG = logreals(0.1, 30.0)
TAU = logreals(1e-2, 1e2)
DEG = st.sampled_from([1, 2, 3])


@sub(
    fdict(which=st.sampled_from(['both', 'both', 'both', 'm', 'q', 'none']), m=st.integers(4, 60), q=st.integers(4, 40), mt=TAU, qt=TAU, ms=SIG, qs=SIG, md=DEG, qd=DEG, name=NAME, seed=st.integers(0, 2**31 - 1), default=st.booleans(), given=st.booleans()),
    quick=60, thorough=1500, modes=("x64", "f32"), split=2,
)
def mass_prior(c):
    r = rng(c["seed"])
    c["m"], c["q"] = c["m"] if c["which"] in ("m", "both") else None, c["q"] if c["which"] in ("q", "both") else None
    kw = dict(m_tau=c["mt"], q_tau=c["qt"], m_cs_sig=c["ms"], q_cs_sig=c["qs"], m_deg=c["md"], q_deg=c["qd"])
    p = kw
    if c["default"]:
        kw, p = {}, dict(m_tau=1, q_tau=1, m_cs_sig=15, q_cs_sig=5, m_deg=1, q_deg=1)
    call = lambda: U.bspline_mass_prior(m_nsplines=c["m"], q_nsplines=c["q"], name=c["name"], **kw)
    if c["m"] is None and c["q"] is None:
        try:
            run(call, c["seed"])
        except AssertionError:
            return "refused"
        require(False, "a mass prior without any coefficients was accepted")
    sfx = "" if c["name"] is None else "_" + c["name"]
    exp, order = {}, []
    if c["m"] is not None:
        exp["mass_cs" + sfx] = (c["m"], p["m_cs_sig"], "mass_smoothing_prior" + sfx, p["m_tau"], p["m_deg"], False)
        order.append("mass_cs" + sfx)
    if c["q"] is not None:
        exp["q_cs" + sfx] = (c["q"], p["q_cs_sig"], "q_smoothing_prior" + sfx, p["q_tau"], p["q_deg"], False)
        order.append("q_cs" + sfx)
    vals = {k: jnp.asarray(cast(3 * r.standard_normal(exp[k][0]))) for k in order} if c["given"] else None
    out, tr = run(call, c["seed"], vals)
    check_sites(tr, exp, "mass prior")
    out = [out] if len(order) == 1 else list(out)
    require(len(out) == len(order), "number of returned coefficient vectors", got=len(out))
    for o, k in zip(out, order):
        require(np.array_equal(arr(o), arr(tr[k]["value"])), f"the returned {k} are not the sampled ones")
    return f"{len(order)} sets"


@sub(
    fdict(a=st.integers(4, 30), t=st.integers(4, 30), at=TAU, tt=TAU, asig=SIG, tsig=SIG, ad=DEG, td=DEG, iid=st.booleans(), name=NAME, seed=st.integers(0, 2**31 - 1), default=st.booleans(), given=st.booleans()),
    quick=60, thorough=1500, modes=("x64", "f32"), split=2,
)
def spin_prior(c):
    r = rng(c["seed"])
    p = dict(a_cs_sig=c["asig"], ct_cs_sig=c["tsig"], a_deg=c["ad"], ct_deg=c["td"])
    kw = p
    if c["default"]:
        kw, p = {}, dict(a_cs_sig=5, ct_cs_sig=5, a_deg=2, ct_deg=2)
    sfx = "" if c["name"] is None else "_" + c["name"]
    exp, order = {}, []
    for comp in [""] if c["iid"] else ["1", "2"]:
        exp[f"a{comp}_cs{sfx}"] = (c["a"], p["a_cs_sig"], f"a{comp}_smoothing_prior{sfx}", c["at"], p["a_deg"], False)
        exp[f"tilt{comp}_cs{sfx}"] = (c["t"], p["ct_cs_sig"], f"ct{comp}_smoothing_prior{sfx}", c["tt"], p["ct_deg"], False)
        order += [f"a{comp}_cs{sfx}", f"tilt{comp}_cs{sfx}"]
    vals = {k: jnp.asarray(cast(3 * r.standard_normal(exp[k][0]))) for k in order} if c["given"] else None
    out, tr = run(lambda: U.bspline_spin_prior(a_nsplines=c["a"], ct_nsplines=c["t"], a_tau=c["at"], ct_tau=c["tt"], name=c["name"], IID=c["iid"], **kw), c["seed"], vals)
    check_sites(tr, exp, "spin prior")
    require(len(out) == len(order), "number of returned coefficient vectors", got=len(out))
    for o, k in zip(out, order):
        require(np.array_equal(arr(o), arr(tr[k]["value"])), f"the returned {k} are not the sampled ones")
    vs = [arr(tr[k]["value"]) for k in order]
    if vals is None and not c["iid"]:
        require(not np.array_equal(vs[0], vs[2]) and not np.array_equal(vs[1], vs[3]), "the two components share one draw")
    return "shared" if c["iid"] else "independent"


@sub(
    fdict(n=st.integers(5, 40), t=TAU, sig=SIG, d=DEG, name=NAME, seed=st.integers(0, 2**31 - 1), default=st.booleans(), given=st.booleans()),
    quick=40, thorough=1000, modes=("x64", "f32"),
)
def redshift_prior(c):
    r = rng(c["seed"])
    kw, sig, deg = dict(z_cs_sig=c["sig"], z_deg=c["d"]), c["sig"], c["d"]
    if c["default"]:
        kw, sig, deg = {}, 1, 2
    sfx = "" if c["name"] is None else "_" + c["name"]
    k = "z_cs" + sfx
    vals = {k: jnp.asarray(cast(r.standard_normal(c["n"] - 1)))} if c["given"] else None
    out, tr = run(lambda: U.bspline_redshift_prior(z_nsplines=c["n"], z_tau=c["t"], name=c["name"], **kw), c["seed"], vals)
    check_sites(tr, {k: (c["n"] - 1, sig, "z_smoothing_prior" + sfx, c["t"], deg, True)}, "redshift prior")
    o = arr(out, "redshift coefficients", (c["n"],))
    require(o[0] == 0 and np.array_equal(o[1:], arr(tr[k]["value"])), "the returned coefficients are a zero followed by the sampled ones", out=o)
    return "redshift"


PED = dict(mass_1=(3.0, 95.0), mass_ratio=(0.05, 1.0), a_1=(0, 1), a_2=(0, 1), cos_tilt_1=(-1, 1), cos_tilt_2=(-1, 1), redshift=(0.01, 1.5))


@sub(
    fdict(s=seeds, m=st.integers(4, 12), q=st.integers(4, 10), a=st.integers(4, 8), t=st.integers(4, 8), z=st.integers(4, 8), mmin=reals(2.0, 5.0), mmax=reals(60.0, 110.0), which=st.sampled_from(["mass", "spin", "iid spin", "redshift"])),
    quick=16, thorough=300, modes=("x64",), split=4,
    corpus=[dict(s=i, m=6, q=5, a=5, t=4, z=6, mmin=3.0, mmax=90.0, which=w) for i, w in enumerate(["mass", "spin", "iid spin", "redshift"])],
)
def ready_made_models(c):
    """the set-up helpers build the documented models on the right columns of the data"""
    from gwinferno.interpolation import LogXLogYBSpline, LogYBSpline
    from gwinferno.models.bsplines import separable as S
    from gwinferno.models.spline_perturbation import PowerlawSplineRedshiftModel

    r = rng(c["s"])
    pe = {k: jnp.asarray(lo + (hi - lo) * r.random((3, 11))) for k, (lo, hi) in PED.items()}
    inj = {k: jnp.asarray(lo + (hi - lo) * r.random(29)) for k, (lo, hi) in PED.items()}
    same = lambda a, b, what: close(arr(a), arr(b), what, rtol=1e-9, atol=1e-14)
    C = lambda n: jnp.asarray(r.standard_normal(n))
    cols = lambda *ks: [pe[k] for k in ks] + [inj[k] for k in ks]
    if c["which"] == "mass":
        got = U.setup_bspline_mass_models(pe, inj, c["m"], c["q"], c["mmin"], c["mmax"])
        want = S.BSplinePrimaryBSplineRatio(c["m"], c["q"], pe["mass_1"], inj["mass_1"], pe["mass_ratio"], inj["mass_ratio"], m1min=c["mmin"], m2min=c["mmin"], mmax=c["mmax"], kwargs_m={"basis": LogXLogYBSpline}, kwargs_q={"basis": LogYBSpline})
        pairs, ns = [(got, want)], [(c["m"], c["q"])]
    elif c["which"] == "spin":
        got = U.setup_bspline_spin_models(pe, inj, c["a"], c["t"], IID=False, a2_nsplines=c["a"] + 1, ct2_nsplines=c["t"] + 1)
        want = (S.BSplineIndependentSpinMagnitudes(c["a"], c["a"] + 1, *cols("a_1", "a_2"), normalize=True), S.BSplineIndependentSpinTilts(c["t"], c["t"] + 1, *cols("cos_tilt_1", "cos_tilt_2"), normalize=True))
        pairs, ns = list(zip(got, want)), [(c["a"], c["a"] + 1), (c["t"], c["t"] + 1)]
    elif c["which"] == "iid spin":
        got = U.setup_bspline_spin_models(pe, inj, c["a"], c["t"], IID=True)
        want = (S.BSplineIIDSpinMagnitudes(c["a"], *cols("a_1", "a_2"), normalize=True), S.BSplineIIDSpinTilts(c["t"], *cols("cos_tilt_1", "cos_tilt_2"), normalize=True))
        pairs, ns = list(zip(got, want)), [(c["a"],), (c["t"],)]
    else:
        got = U.setup_powerlaw_spline_redshift_model(pe, inj, c["z"])
        want = PowerlawSplineRedshiftModel(c["z"], pe["redshift"], inj["redshift"])
        cs = C(c["z"])
        for d in (pe, inj):
            same(got(d["redshift"], 2.0, cs), want(d["redshift"], 2.0, cs), "redshift model")
        return c["which"]
    require(len(pairs) == len(ns), "number of models", got=len(pairs))
    for (g, w), n in zip(pairs, ns):
        cs = [C(k) for k in n]
        for p in (True, False):
            same(g(*cs, pe_samples=p), w(*cs, pe_samples=p), f"{c['which']} model")
    return c["which"]
