"""P16: hierarchical likelihood."""

import numpy as np
import scipy.stats as ss
from gens import fdict, logreals, reals, rng, seeds
from harness import arr, cast, close, fnum, require, sub, tol
from hypothesis import strategies as st
from mc_ref import bayes_factors, efficiency, weights

import jax
import jax.numpy as jnp
from numpyro import handlers

from gwinferno.pipeline import analysis as A

J = jnp.asarray
BOTTOM = tol(-1e300, -1e38)


def traced(seed, data, *a, **k):
    out = {}

    def model():
        out["r"] = A.hierarchical_likelihood(*a, **k)

    m = handlers.substitute(model, data=data) if data else model
    tr = handlers.trace(handlers.seed(m, jax.random.PRNGKey(seed))).get_trace()
    return out["r"], tr


def factor(tr, name="log_likelihood"):
    s = tr[name]
    return float(arr(jnp.sum(s["fn"].log_prob(s["value"])), "log likelihood"))


def expected(lpe, linj, N, Nobs, flags):
    """(value or None if the sample must be rejected, is the decision far from every threshold)"""
    with np.errstate(all="ignore"):
        bf, ne, var = bayes_factors(lpe)
        mu, nei, vi, cond = efficiency(linj, N)
        sharp = True
        total = Nobs**2 * vi + np.sum(var)
        empty = not np.all(np.isfinite(bf)) or not np.isfinite(mu)
        logl = np.sum(bf) - Nobs * mu
        if flags["marginalize_selection"]:
            logl += Nobs * (3 + Nobs) / 2 / np.exp(nei)
        bad = empty
        if flags["min_neff_cut"]:
            bad |= bool(nei < np.log(4 * Nobs)) or bool(np.exp(np.min(ne)) <= Nobs)
            sharp &= abs(nei - np.log(4 * Nobs)) > 1e-3 * min(cond, 1e6) and abs(np.min(ne) - np.log(Nobs)) > 1e-3
        if flags["max_variance_cut"]:
            bad |= not total <= 1
            sharp &= abs(total - 1) > tol(1e-6, 2e-3) * (1 + Nobs**2) * min(cond, 1e6)
    return bf, ne, var, mu, nei, vi, cond, total, (None if bad else float(logl)), bool(sharp or empty)


CASE = dict(
    s=seeds, nobs=st.integers(1, 6), ns=st.sampled_from([5, 30, 200]), ninj=st.sampled_from([40, 400, 2000]), extra=logreals(1.05, 1e5), kind=st.sampled_from(["uniform", "lognormal", "lognormal", "heavy", "zeros"]), ikind=st.sampled_from(["uniform", "lognormal", "heavy", "zeros"]),
    scale=reals(-8.0, 8.0), iscale=reals(-8.0, 8.0), log=st.booleans(), flags=st.sampled_from(["default", "default", "plain", "marginal", "variance", "neff+marginal"]), T=logreals(0.05, 10.0), vt=logreals(1e8, 1e13), empty=st.sampled_from([None, None, None, None, "event", "inj"]), wide=st.booleans(),
)
FLAGS = {
    "default": {},
    "plain": dict(min_neff_cut=False),
    "marginal": dict(min_neff_cut=False, marginalize_selection=True),
    "variance": dict(min_neff_cut=False, max_variance_cut=True),
    "neff+marginal": dict(marginalize_selection=True),
}


def data(c, r):
    # evidences of events may be any number: as large or small as the arithmetic allows
    far = 1.0 if not c["wide"] else (30.0 if c["log"] else tol(30.0, 1.5))
    lpe = weights(r, (c["nobs"], c["ns"]), c["kind"]) + c["scale"] * far
    linj = weights(r, (c["ninj"],), c["ikind"]) + c["iscale"]
    if c["empty"] == "event":
        lpe[r.integers(c["nobs"])] = -np.inf
    elif c["empty"] == "inj":
        linj[:] = -np.inf
    if c["log"]:
        return cast(lpe), cast(linj), cast(lpe), cast(linj)
    with np.errstate(divide="ignore"):
        pe, inj = cast(np.exp(lpe)), cast(np.exp(linj))
        return pe, inj, np.log(pe), np.log(inj)


@sub(
    fdict(**CASE, rate=st.booleans(), unscaled=logreals(0.1, 50.0)), quick=400, thorough=10000, modes=("x64", "f32"), split=4,
    corpus=[dict(s=1, nobs=3, ns=200, ninj=2000, extra=100.0, kind="lognormal", ikind="lognormal", scale=-7.0 if f == 'plain' else 0.5, iscale=0.0, log=lg, flags=f, T=1.5, vt=1e11, empty=e, rate=True, unscaled=3.0, wide=True)
            for lg in (True, False) for f in FLAGS for e in (None, "event", "inj")]
    + [dict(s=2, nobs=69, ns=1500, ninj=60000, extra=1000.0, kind="lognormal", ikind="lognormal", scale=0.5, iscale=0.0, log=lg, flags=f, T=1.5, vt=1e11, empty=None, rate=True, unscaled=60.0, wide=False) for lg in (True, False) for f in FLAGS],
)
def likelihood(c):
    """sum of log Bayes factors minus Nobs log efficiency, with the chosen cuts; never NaN; every reported quantity agrees with it"""
    r = rng(c["s"])
    pe, inj, lpe, linj = data(c, r)
    Nobs, N = c["nobs"], int(np.ceil(c["ninj"] * c["extra"])) + 1
    flags = dict(marginalize_selection=False, min_neff_cut=True, max_variance_cut=False)
    flags.update(FLAGS[c["flags"]])
    bf, ne, var, mu, nei, vi, cond, total, want, sharp = expected(lpe, linj, N, Nobs, flags)
    T, vt = fnum(c["T"]), fnum(c["vt"])
    kw = dict(FLAGS[c["flags"]], log=c["log"])
    kw.update(surveyed_hypervolume=vt, reconstruct_rate=True) if c["rate"] else kw.update(reconstruct_rate=False)
    sub_ = {"unscaled_rate": J(cast(c["unscaled"]))} if c["rate"] else None
    out, tr = traced(c["s"] % 1000, sub_, J(pe), J(inj), N, Nobs, T, **kw)
    got = factor(tr)
    require(np.isfinite(got), "the log likelihood is not a finite number", got=got, flags=c["flags"], empty=c["empty"])
    for k, s in tr.items():
        if s["type"] == "deterministic" and k in ("log_l", "neff_less_Nobs", "variance_less_1"):
            require(np.isfinite(float(s["value"])), f"{k} is not finite", got=float(s["value"]))
    rt, at = tol(1e-9, 2e-5), tol(1e-8, 1e-3) * Nobs
    okc = cond < tol(1e6, 30.0)
    if sharp and (okc or c["flags"] == "plain"):
        if want is None:
            require(got <= BOTTOM, "a sample without usable support or failing a cut was not rejected", got=got, flags=c["flags"], empty=c["empty"], nei=nei, ne=ne, total=total)
        else:
            extra = Nobs * (3 + Nobs) / np.exp(nei) * tol(1e-9, 1e-3) * cond if flags["marginalize_selection"] else 0
            close(got, want, "log likelihood", rtol=rt, atol=at + extra, flags=c["flags"], nobs=Nobs, N=N)
    if c["empty"] is None:
        val = lambda k, shape=(): arr(tr[k]["value"], k, shape)
        close(val("logBFs", (Nobs,)), bf, "reported log Bayes factors", rtol=rt, atol=tol(1e-9, 2e-4))
        close(val("log_nEffs", (Nobs,)), ne, "reported effective sample sizes", rtol=rt, atol=tol(1e-9, 2e-4))
        close(val("variance_log_BFs", (Nobs,)), var, "reported variances", rtol=tol(1e-8, 1e-3), atol=tol(1e-10, 1e-4))
        close(np.log(val("detection_efficiency")), mu, "reported detection efficiency", rtol=rt, atol=tol(1e-9, 2e-4))
        close(val("sum_logBFs"), np.sum(bf), "reported sum of log Bayes factors", rtol=rt, atol=at)
        if okc:
            close(val("log_nEff_inj"), nei, "reported effective number of injections", rtol=rt, atol=tol(1e-9, 2e-4) * cond)
            close(val("variance_log_detection_efficiency"), vi, "reported variance of the efficiency", rtol=tol(1e-8, 1e-3) * cond, atol=tol(1e-12, 1e-6))
            close(val("variance_log_likelihood"), total, "reported variance of the log likelihood", rtol=tol(1e-8, 1e-3) * cond, atol=tol(1e-9, 1e-4) * Nobs)
            if want is not None or not flags["min_neff_cut"]:
                s = -Nobs * mu + (Nobs * (3 + Nobs) / 2 / np.exp(nei) if flags["marginalize_selection"] else 0)
                if np.isfinite(mu):
                    close(val("selection_factor"), s, "reported selection factor", rtol=rt, atol=at + (abs(s + Nobs * mu) * tol(1e-9, 1e-3) * cond))
        if c["rate"]:
            close(val("surveyed_hypervolume"), vt / 1e9 * T, "surveyed hypervolume", rtol=tol(1e-10, 1e-5))
            g = tr["unscaled_rate"]
            u = float(g["value"])
            close(float(g["fn"].log_prob(g["value"])), ss.gamma(Nobs).logpdf(u), "density of the unscaled rate", rtol=tol(1e-9, 1e-4), atol=tol(1e-9, 1e-3))
            w = u / np.exp(mu) / (vt / 1e9 * T)
            close(val("rate"), w, "merger rate", rtol=tol(1e-8, 1e-3))
            close(arr(out, "returned rate", ()), w, "returned merger rate", rtol=tol(1e-8, 1e-3))
    if not c["rate"]:
        require(out is None and "rate" not in tr and "unscaled_rate" not in tr, "a rate was reconstructed although none was asked for", sites=list(tr))
    if c["empty"]:
        return f"no support: {c['empty']}"
    return f"{c['flags']}: {'rejected' if want is None else 'kept'}" if sharp else None


@sub(fdict(**{k: v for k, v in CASE.items() if k not in ("empty", "flags")}), quick=60, thorough=2000, modes=("x64",), split=2)
def invariances(c):
    """event order, sample order, injection order and the way weights are passed do not matter; common factors cancel as they must"""
    r = rng(c["s"])
    pe, inj, lpe, linj = data(dict(c, empty=None), r)
    Nobs, N = c["nobs"], int(np.ceil(c["ninj"] * c["extra"])) + 1

    def L(p, i, log=c["log"], n=N):
        return factor(traced(0, None, J(p), J(i), n, Nobs, 1.0, reconstruct_rate=False, min_neff_cut=False, log=log)[1])

    base = L(pe, inj)
    at = 1e-8 * (1 + abs(base))
    e, a, b = r.permutation(Nobs), r.permutation(c["ns"]), r.permutation(c["ninj"])
    close(L(pe[e][:, a], inj[b]), base, "reordered data", rtol=0, atol=at)
    with np.errstate(divide="ignore", over="ignore"):
        close(L(np.exp(lpe) if c["log"] else lpe, np.exp(linj) if c["log"] else linj, log=not c["log"]), base, "weights against log weights", rtol=0, atol=at)
    k = 0.7
    f = (lambda x: x + k) if c["log"] else (lambda x: x * np.exp(k))
    close(L(f(pe), f(inj)), base, "population density rescaled in both", rtol=0, atol=at)  # an overall factor cancels
    close(L(f(pe), inj), base + Nobs * k, "posterior weights rescaled", rtol=0, atol=at)
    close(L(pe, inj, n=3 * N), base + Nobs * np.log(3), "three times as many injections", rtol=0, atol=at)
    if Nobs > 1:
        # adding an event adds its own term
        one = lambda j: factor(traced(0, None, J(pe[j : j + 1]), J(inj), N, 1, 1.0, reconstruct_rate=False, min_neff_cut=False, log=c["log"])[1])
        close(sum(one(j) for j in range(Nobs)), base, "sum over single events", rtol=0, atol=at)
    return "log" if c["log"] else "linear"


@sub(
    fdict(s=seeds, nobs=st.integers(1, 6), ns=st.sampled_from([5, 60]), k=st.integers(2, 4), log=st.booleans()),
    quick=80, thorough=2000, modes=("x64", "f32"),
)
def latent_subpopulations(c):
    """with latent assignments every event uses exactly the weights of its own sub-population, which is drawn with the population fractions"""
    r = rng(c["s"])
    Nobs, K = c["nobs"], c["k"]
    lpe = [cast(weights(r, (Nobs, c["ns"]), "lognormal") + 2 * j) for j in range(K)]
    linj = cast(weights(r, (300,), "lognormal"))
    frac = r.dirichlet(np.ones(K))
    Q = r.integers(0, K, Nobs)
    pe = [J(v if c["log"] else cast(np.exp(v))) for v in lpe]
    inj = J(linj if c["log"] else cast(np.exp(linj)))
    kw = dict(categorical=True, pop_frac=tuple(frac), rngkey=jax.random.PRNGKey(c["s"] % 997), reconstruct_rate=False, min_neff_cut=False, log=c["log"])
    _, tr = traced(0, {"Qs": J(Q)}, pe, inj, 5000, Nobs, 1.0, **kw)
    mine = np.array([lpe[q][i] for i, q in enumerate(Q)])
    bf, ne, var = bayes_factors(mine)
    mu = efficiency(linj, 5000)[0]
    close(arr(tr["logBFs"]["value"], "log Bayes factors", (Nobs,)), bf, "log Bayes factors of the assigned sub-populations", rtol=tol(1e-9, 1e-5), atol=tol(1e-9, 3e-4), Q=Q)
    close(factor(tr), np.sum(bf) - Nobs * mu, "log likelihood with assignments", rtol=tol(1e-9, 1e-5), atol=tol(1e-8, 2e-3) * Nobs)
    s = tr["Qs"]
    lp = float(jnp.sum(s["fn"].log_prob(s["value"])))
    close(lp, np.sum(np.log(cast(frac)[Q])), "probability of the assignments", rtol=tol(1e-7, 1e-4), atol=1e-4)
    _, t2 = traced(0, None, pe, inj, 5000, Nobs, 1.0, **kw)
    q2 = np.asarray(t2["Qs"]["value"]).reshape(-1)
    require(q2.shape == (Nobs,) and np.all((q2 >= 0) & (q2 < K)), "sampled assignments", Q=q2)
    close(arr(t2["logBFs"]["value"]), bayes_factors(np.array([lpe[q][i] for i, q in enumerate(q2)]))[0], "log Bayes factors of sampled assignments", rtol=tol(1e-9, 1e-5), atol=tol(1e-9, 3e-4))
    return f"{K} sub-populations"


@sub(
    fdict(m=st.booleans(), n=st.booleans(), v=st.booleans(), s=seeds), quick=16, thorough=50, modes=("x64",),
    corpus=[dict(m=m, n=n, v=True, s=1) for m in (True, False) for n in (True, False)],
)
def incompatible_cuts(c):
    """the variance cut excludes the two others"""
    r = rng(c["s"])
    pe, inj = J(r.random((2, 50))), J(r.random(200))
    bad = c["v"] and (c["m"] or c["n"])
    try:
        traced(0, None, pe, inj, 1000, 2, 1.0, reconstruct_rate=False, marginalize_selection=c["m"], min_neff_cut=c["n"], max_variance_cut=c["v"])
    except ValueError:
        require(bad, "a valid combination of cuts was refused", **c)
        return "refused"
    require(not bad, "contradictory cuts were accepted", **c)
    return None


@sub(fdict(s=seeds, nobs=st.integers(1, 5), log=st.booleans(), flags=st.sampled_from(["plain", "marginal", "default"])), quick=24, thorough=400, modes=("x64",))
def gradients(c):
    """the gradient of the log likelihood with respect to population parameters is that of the formula"""
    r = rng(c["s"])
    Nobs = c["nobs"]
    xp, xi = r.standard_normal((Nobs, 200)), 1.5 * r.standard_normal(1500)
    N = 20000

    def lw(x, th):
        return th[0] * x - 0.5 * jnp.exp(th[1]) * x**2

    def L(th):
        p, i = lw(J(xp), th), lw(J(xi), th)
        if not c["log"]:
            p, i = jnp.exp(p), jnp.exp(i)
        out = {}

        def m():
            A.hierarchical_likelihood(p, i, N, Nobs, 1.0, reconstruct_rate=False, log=c["log"], **FLAGS[c["flags"]])

        tr = handlers.trace(handlers.seed(m, jax.random.PRNGKey(0))).get_trace()
        return jnp.sum(tr["log_likelihood"]["fn"].log_prob(tr["log_likelihood"]["value"]))

    th = np.array([0.3, -0.2]) + 0.2 * r.standard_normal(2)
    g = arr(jax.grad(L)(J(th)), "gradient", (2,))

    def ref(t):
        a, b = (np.asarray(lw(x, t)) for x in (xp, xi))
        flags = dict(marginalize_selection=False, min_neff_cut=True, max_variance_cut=False)
        flags.update(FLAGS[c["flags"]])
        return expected(a, b, N, Nobs, flags)[8]

    h = 1e-5
    if any(ref(th + s * h * e) is None for e in np.eye(2) for s in (1, -1)):
        return None
    fd = np.array([(ref(th + h * e) - ref(th - h * e)) / (2 * h) for e in np.eye(2)])
    close(g, fd, "gradient of the log likelihood", rtol=1e-5, atol=1e-5)
    return c["flags"]


def tuned(z, target, neff):
    """s with neff(s * z) = target; neff decreases with s"""
    lo, hi = 0.0, 12.0
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        lo, hi = (mid, hi) if neff(mid * z) > target else (lo, mid)
    return 0.5 * (lo + hi) * z


GAP = st.sampled_from([0.75, 0.9, 0.97, 1.03, 1.1, 1.3])


@sub(
    fdict(s=seeds, nobs=st.integers(2, 8), which=st.sampled_from(["event", "injections", "variance"]), gap=GAP, log=st.booleans(), part=reals(0.1, 0.9)),
    quick=160, thorough=4000, modes=("x64", "f32"), split=2,
    corpus=[dict(s=5, nobs=4, which=w, gap=g, log=True, part=0.5) for w in ("event", "injections", "variance") for g in (0.9, 1.1)],
)
def cut_thresholds(c):
    """the cuts act where documented: Nobs effective samples per event, 4 Nobs effective injections, variance one"""
    r = rng(c["s"])
    Nobs, g = c["nobs"], c["gap"]
    N = 3000
    lpe, linj = 0.05 * r.standard_normal((Nobs, 400)), 0.05 * r.standard_normal(600)
    ness = lambda v: float(np.exp(bayes_factors(v[None])[1][0]))
    farr = lambda v: float(np.exp(efficiency(v, N)[1]))
    kw = {}
    if c["which"] == "event":
        lpe[r.integers(Nobs)] = tuned(r.standard_normal(400), Nobs * g, ness)
        kept = g > 1
    elif c["which"] == "injections":
        linj = tuned(r.standard_normal(600), 4 * Nobs * g, farr)
        kept = g > 1
    else:
        # variance = Nobs^2 * (1/farr - 1/N) + sum(1/neff - 1/n): share it between the two
        a = c["part"] * g
        linj = tuned(r.standard_normal(600), 1 / (a / Nobs**2 + 1 / N), farr) if a / Nobs**2 > 2.2e-3 else linj
        a = Nobs**2 * efficiency(linj, N)[2]
        rest = (g - a) / Nobs
        if rest <= 1e-4:
            return None
        for j in range(Nobs):
            lpe[j] = tuned(r.standard_normal(400), 1 / (rest + 1 / 400), ness)
        kept = g < 1
        kw = dict(min_neff_cut=False, max_variance_cut=True)
    lpe, linj = cast(lpe), cast(linj)
    flags = dict(marginalize_selection=False, min_neff_cut=True, max_variance_cut=False)
    flags.update(kw)
    want = expected(lpe, linj, N, Nobs, flags)[8]
    if (want is not None) != kept:
        return None  # the construction missed its target
    p, i = (lpe, linj) if c["log"] else (cast(np.exp(lpe)), cast(np.exp(linj)))
    got = factor(traced(0, None, J(p), J(i), N, Nobs, 1.0, reconstruct_rate=False, log=c["log"], **kw)[1])
    if kept:
        require(got > BOTTOM, f"rejected although the {c['which']} criterion is met", gap=g, nobs=Nobs)
        close(got, want, "log likelihood", rtol=tol(1e-8, 1e-4), atol=tol(1e-8, 2e-3) * Nobs)
    else:
        require(got <= BOTTOM, f"kept although the {c['which']} criterion fails", gap=g, nobs=Nobs, got=got)
    return f"{c['which']} {'kept' if kept else 'rejected'}"
