"""P18: a population model described in a configuration file is the model that is evaluated."""

import os

import numpy as np
import scipy.special as sp
import scipy.stats as ss
import yaml
from checks_ref import powerlaw_ref, trapz, truncnorm_ref
from cosmo_ref import Ref
from gens import fdict, logreals, reals, rng, seeds
from harness import arr, cast, close, fnum, require, sub, tol
from hypothesis import strategies as st
from mc_ref import bayes_factors, efficiency

import jax
import jax.numpy as jnp
from numpyro import handlers

from gwinferno.pipeline.analysis import construct_hierarchical_model
from gwinferno.pipeline.parser import ConfigReader

REF = Ref([0.3065, 0.0, 67.9])
ND, GD, OWN = "numpyro.distributions.", "gwinferno.numpyro_distributions.", "userdists."
COLS = dict(mass_1=(3.0, 90.0), mass_ratio=(0.05, 1.0), redshift=(0.02, 1.9), a_1=(0.01, 0.99), a_2=(0.01, 0.99), cos_tilt_1=(-0.99, 0.99), cos_tilt_2=(-0.99, 0.99))


def lp_powerlaw(x, h):
    with np.errstate(divide="ignore"):
        return np.log(powerlaw_ref(x, h["alpha"], h["minimum"], h["maximum"]))


def lp_redshift(x, h):
    z = np.linspace(1e-9, h["maximum"], 1000)
    dv = REF.dVcdz(z)
    N = trapz(dv * (1 + z) ** (h["lamb"] - 1), z)
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(x <= h["maximum"], np.log(np.interp(x, z, dv)) + (h["lamb"] - 1) * np.log1p(x) - np.log(N), -np.inf)


MODELS = {
    "powerlaw": (GD + "Powerlaw", lp_powerlaw),
    "uniform": (ND + "Uniform", lambda x, h: np.full(np.shape(x), -np.log(h["high"] - h["low"]))),
    "normal": (ND + "Normal", lambda x, h: ss.norm(h["loc"], h["scale"]).logpdf(x)),
    "cauchy": (ND + "Cauchy", lambda x, h: ss.cauchy(h["loc"], h["scale"]).logpdf(x)),
    "lognormal": (ND + "LogNormal", lambda x, h: ss.lognorm(h["scale"], scale=np.exp(h["loc"])).logpdf(x)),
    "beta": (ND + "Beta", lambda x, h: ss.beta(h["concentration1"], h["concentration0"]).logpdf(x)),
    "redshift": (GD + "PowerlawRedshift", lp_redshift),
    # classes of the user's own modules, some with the names of numpyro's
    "bump one": (OWN + "one.Bump", lambda x, h: ss.norm(h["loc"] + 5, h["scale"]).logpdf(x)),
    "bump two": (OWN + "two.Bump", lambda x, h: ss.cauchy(h["loc"] - 0.5, h["scale"]).logpdf(x)),
    "other normal": (OWN + "one.Normal", lambda x, h: ss.cauchy(h["loc"], h["scale"]).logpdf(x)),
    "other uniform": (OWN + "two.Uniform", lambda x, h: ss.norm((h["low"] + h["high"]) / 2, h["high"] - h["low"]).logpdf(x)),
    "gamma": (ND + "Gamma", lambda x, h: ss.gamma(h["concentration"], scale=1 / h["rate"]).logpdf(x)),
    "laplace": (ND + "Laplace", lambda x, h: ss.laplace(h["loc"], h["scale"]).logpdf(x)),
    "logistic": (ND + "Logistic", lambda x, h: ss.logistic(h["loc"], h["scale"]).logpdf(x)),
    "student": (ND + "StudentT", lambda x, h: ss.t(h["df"], h["loc"], h["scale"]).logpdf(x)),
}
NORM = lambda v, p: ss.norm(p.get("loc", 0.0), p.get("scale", 1.0)).logpdf(v)
CAUCHY = lambda v, p: ss.cauchy(p.get("loc", 0.0), p.get("scale", 1.0)).logpdf(v)
# class, parameters, log density; parameters left out take their defaults
PRIORS = [
    (ND + "Normal", lambda r: dict(loc=float(np.round(r.normal(), 3)), scale=float(np.round(0.5 + 2 * r.random(), 3))), NORM),
    (ND + "Uniform", lambda r: dict(low=-50.0, high=float(np.round(150 + 50 * r.random(), 3))), lambda v, p: ss.uniform(p["low"], p["high"] - p["low"]).logpdf(v)),
    (ND + "Cauchy", lambda r: dict(loc=0.0, scale=float(np.round(0.5 + r.random(), 3))), CAUCHY),
    (ND + "Normal", lambda r: {}, NORM),
    (ND + "Cauchy", lambda r: [{}, dict(loc=3), dict(scale=2)][r.integers(3)], CAUCHY),
    (OWN + "one.Normal", lambda r: dict(loc=1, scale=0.5), CAUCHY),
    (OWN + "one.Bump", lambda r: dict(scale=float(np.round(1 + r.random(), 3))), lambda v, p: ss.norm(5.0, p["scale"]).logpdf(v)),
    (OWN + "two.Bump", lambda r: {}, lambda v, p: ss.cauchy(-0.5, 1.0).logpdf(v)),
    (OWN + "two.Uniform", lambda r: dict(low=-10, high=20), lambda v, p: ss.norm(5.0, 30.0).logpdf(v)),
]


def values(kind, param, r):
    u = lambda a, b: fnum(np.round(a + (b - a) * r.random(), 4))
    if kind == "powerlaw":
        return dict(alpha=u(-3.5, -1.2) if param == "mass_1" else u(-0.5, 3.0), minimum=u(3.0, 6.0) if param == "mass_1" else u(0.02, 0.08), maximum=u(70.0, 95.0) if param == "mass_1" else 1.0)
    if kind in ("uniform", "other uniform"):
        return dict(low=u(1.0, 2.9), high=u(90.5, 110.0)) if param == "mass_1" else dict(low=-1.0, high=u(1.0, 1.2)) if "tilt" in param else dict(low=0.0, high=u(1.0, 1.3))
    if kind == "gamma":
        return dict(concentration=u(2.0, 5.0), rate=u(0.05, 0.2)) if param == "mass_1" else dict(concentration=u(1.2, 3.0), rate=u(2.0, 6.0))
    if kind == "student":
        return dict(df=u(1.5, 6.0), **values("normal", param, r))
    if kind in ("normal", "cauchy", "bump one", "bump two", "other normal", "laplace", "logistic"):
        return dict(loc=u(15.0, 40.0), scale=u(15.0, 30.0)) if param == "mass_1" else dict(loc=u(-0.5, 1.0), scale=u(0.4, 1.0))
    if kind == "lognormal":
        return dict(loc=u(2.0, 3.5), scale=u(0.6, 1.2))
    if kind == "beta":
        return dict(concentration1=u(1.2, 3.0), concentration0=u(1.2, 4.0))
    return dict(lamb=u(-1.0, 4.0), maximum=u(1.2, 2.3))


CHOICES = dict(
    mass_1=["powerlaw", "powerlaw", "powerlaw", "uniform", "lognormal", "normal", "gamma", "bump one", "student", "other normal"], mass_ratio=["powerlaw", "uniform", "beta", "laplace", "other uniform"], redshift=["redshift"],
    a_1=["beta", "beta", "uniform", "normal", "gamma", "bump two", "other normal"], cos_tilt_1=["normal", "uniform", "logistic", "bump two", "other uniform", "mixture", "mixture", "mixture"],
)


def make_config(c, r):
    """yaml dictionary, {parameter: log density}, {site: (value, log prior)}, order of the sampled parameters"""
    yml, dens, sites, order, hyper = {}, {}, {}, [], {}

    def add(key, node, hp, h, free):
        v = h[hp]
        if free:
            nm, gen, lp = PRIORS[r.integers(len(PRIORS))]
            p = gen(r)
            node[hp] = dict(prior=nm, prior_params=dict(p))
            sites[key] = (v, float(lp(v, p)))
            order.append(key)
        else:
            if r.random() < 0.25 and hp in ("alpha", "lamb", "loc", "rate"):  # "value: 2" in the file is an integer
                v = int(np.round(v)) or 1
                if hp == "alpha" and v == -1:
                    v = -2
                h[hp] = v
            node[hp] = dict(value=v)

    params = [p for p in ("mass_1", "mass_ratio", "redshift", "a_1", "cos_tilt_1") if c["use"][p]]
    params = [params[i] for i in r.permutation(len(params))]
    for p in params:
        ch = CHOICES[p]
        kind = ch[r.integers(len(ch))]
        if kind == "mixture":
            K = int(r.integers(2, 4)) if r.random() < 0.8 else int(r.integers(4, 14))  # sometimes ten components and more
            conc = [float(v) for v in np.round(0.8 + 2 * r.random(K), 2)]
            probs = cast(r.dirichlet(np.ones(K)))
            node = dict(model=ND + "MixtureGeneral", mixture_dist=dict(model=ND + "Categorical", hyper_params=dict(probs=dict(prior=ND + "Dirichlet", prior_params=dict(concentration=conc)))))
            sites[f"{p}_mixture_dist_probs"] = (probs, float(ss.dirichlet(conc).logpdf(np.asarray(probs, float) / np.sum(probs))))
            order.append(f"{p}_mixture_dist_probs")
            parts = []
            for i in range(K):
                k2 = ["normal", "cauchy", "bump one", "bump two", "laplace", "other normal"][r.integers(6)]  # numpyro wants one common support
                h = values(k2, p, r)
                node[f"component_{i + 1}"] = dict(model=MODELS[k2][0], hyper_params={})
                names = list(h)
                for hp in [names[j] for j in r.permutation(len(names))]:
                    add(f"{p}_component_{i + 1}_{hp}", node[f"component_{i + 1}"]["hyper_params"], hp, h, r.random() < 0.5)
                parts.append((MODELS[k2][1], h))
            w = np.asarray(probs, float) / np.sum(probs)

            def f(x, parts=parts, w=w):
                with np.errstate(divide="ignore"):
                    return np.log(sum(wi * np.exp(g(x, h)) for wi, (g, h) in zip(w, parts)))

            dens[p] = f
        else:
            h = values(kind, p, r)
            node = dict(model=MODELS[kind][0], hyper_params={})
            names = list(h)
            for hp in [names[j] for j in r.permutation(len(names))]:
                fixed = kind == "redshift" and hp == "maximum"
                add(f"{p}_{hp}", node["hyper_params"], hp, h, not fixed and r.random() < 0.6)
            dens[p] = lambda x, g=MODELS[kind][1], h=h: g(x, h)
            hyper[p] = h
        if p in ("a_1", "cos_tilt_1") and c["iid"]:
            other = p.replace("1", "2")
            node["iid"] = dict(shared_parameter=other)
            dens[other] = dens[p]
        yml[p] = node
    return yml, dens, sites, order, hyper


def catalogue(r, shape):
    d = {k: cast(lo + (hi - lo) * r.random(shape)) for k, (lo, hi) in COLS.items()}
    d["prior"] = cast(0.1 + r.random(shape))
    return d


def parse(tag, doc):
    path = os.path.join(os.environ["VERIF_SCRATCH"], f"config_{tag}.yml")
    with open(path, "w") as f:
        yaml.safe_dump(doc, f, sort_keys=False)
    cr = ConfigReader()
    cr.parse(path)
    return cr


USE = st.fixed_dictionaries({p: st.booleans() for p in ("mass_1", "mass_ratio", "redshift", "a_1", "cos_tilt_1")})
KW = st.sampled_from([{}, {}, dict(min_neff_cut=False), dict(min_neff_cut=False, marginalize_selection=True), dict(min_neff_cut=False, max_variance_cut=True), dict(posterior_predictive_check=False)])
CASE = dict(use=USE, iid=st.booleans(), s=seeds, kw=KW, nobs=st.integers(1, 4), twice=st.booleans(), top=st.sampled_from(["full", "bare"]))


def build(c, s, tag):
    r = rng(s)
    if not any(c["use"].values()):
        c["use"]["mass_1"] = True
    yml, dens, sites, order, hyper = make_config(c, r)
    doc = dict(models=yml)
    if c["top"] == "full":
        doc = dict(label=f"run {s}", outdir=f"out/{s}", data=dict(catalog="x.json", n=[1, 2]), sampler=dict(kernel="NUTS", mcmc_kwargs=dict(num_samples=10)), likelihood=dict(c["kw"]), **doc)
    cr = parse(tag, doc)
    if c["top"] == "full":
        require(cr.label == doc["label"] and cr.outdir == doc["outdir"], "label and output directory", label=cr.label, outdir=cr.outdir)
        require(cr.data_conf == doc["data"] and cr.sampler_conf == doc["sampler"] and cr.likelihood_kwargs == doc["likelihood"], "configuration sections", data=cr.data_conf, sampler=cr.sampler_conf, likelihood=cr.likelihood_kwargs)
    else:
        require(cr.label == "label" and cr.outdir == "./" and cr.data_conf == {} and cr.sampler_conf == {} and cr.likelihood_kwargs == {}, "defaults of missing sections")
    require(list(cr.models) and set(cr.models) == set(dens), "modelled parameters", got=list(cr.models), want=sorted(dens))
    require(sorted(cr.sampling_params) == sorted(order), "sampled hyper-parameters", got=cr.sampling_params, want=order)
    kw = cr.likelihood_kwargs if c["top"] == "full" else c["kw"]
    return construct_hierarchical_model(cr.models, cr.priors, **kw), dens, sites, hyper, r


def evaluate(c, model, dens, sites, hyper, r, what):
    samps, injs = catalogue(r, (c["nobs"], 60)), catalogue(r, (800,))
    Ninj, T = 20000, fnum(0.7)
    data = {k: jnp.asarray(cast(v[0])) for k, v in sites.items()}
    if "redshift" in dens:
        data["unscaled_rate"] = jnp.asarray(cast(2.5))
    tr = handlers.trace(handlers.seed(handlers.substitute(model, data=data), jax.random.PRNGKey(3))).get_trace(
        {k: jnp.asarray(v) for k, v in samps.items()}, {k: jnp.asarray(v) for k, v in injs.items()}, Ninj, c["nobs"], T
    )
    free = {k for k, s in tr.items() if s["type"] == "sample" and not s.get("is_observed") and k != "unscaled_rate"}
    require(free == set(sites), f"{what}: free parameters of the model", got=sorted(free), want=sorted(sites))
    for k, (v, lp) in sites.items():
        close(float(jnp.sum(tr[k]["fn"].log_prob(tr[k]["value"]))), lp, f"{what}: prior of {k}", rtol=tol(1e-6, 1e-4), atol=tol(1e-6, 1e-4))
    with np.errstate(divide="ignore"):
        lpe = sum(f(samps[k]) for k, f in dens.items()) - np.log(samps["prior"])
        linj = sum(f(injs[k]) for k, f in dens.items()) - np.log(injs["prior"])
        bf, ne, var = bayes_factors(lpe)
        mu, nei, vi, cond = efficiency(linj, Ninj)
    at = tol(1e-4, 3e-3)
    if np.all(np.isfinite(bf)):
        close(arr(tr["logBFs"]["value"], "log Bayes factors", (c["nobs"],)), bf, f"{what}: log Bayes factors", rtol=1e-4, atol=at, params=list(dens), sites={k: v[0] for k, v in sites.items()})
    close(np.log(float(tr["detection_efficiency"]["value"])), mu, f"{what}: log detection efficiency", rtol=1e-4, atol=at)
    kw = dict(marginalize_selection=False, min_neff_cut=True, max_variance_cut=False)
    kw.update({k: v for k, v in c["kw"].items() if k in kw})
    want = np.sum(bf) - c["nobs"] * mu + (c["nobs"] * (3 + c["nobs"]) / 2 / np.exp(nei) if kw["marginalize_selection"] else 0)
    got = float(jnp.sum(tr["log_likelihood"]["fn"].log_prob(tr["log_likelihood"]["value"])))
    total = c["nobs"] ** 2 * vi + np.sum(var)
    n = c["nobs"]
    clear = True
    rej = not np.isfinite(want)
    if kw["min_neff_cut"]:
        rej |= bool(nei < np.log(4 * n)) or bool(np.exp(np.min(ne)) <= n)
        clear &= abs(nei - np.log(4 * n)) > 0.02 and abs(np.min(ne) - np.log(n)) > 0.02
    if kw["max_variance_cut"]:
        rej |= not total <= 1
        clear &= abs(total - 1) > 0.05
    if clear:
        if rej:
            require(got <= tol(-1e300, -1e38), f"{what}: the cut was not applied", got=got, kw=c["kw"])
        else:
            close(got, want, f"{what}: log likelihood", rtol=1e-4, atol=at * (1 + 2 * n))
    if "redshift" in dens:
        h = hyper["redshift"]
        z = np.linspace(1e-9, h["maximum"], 1000)
        vt = trapz(REF.dVcdz(z) * (1 + z) ** (h["lamb"] - 1), z)
        close(float(tr["surveyed_hypervolume"]["value"]), vt / 1e9 * T, f"{what}: surveyed hypervolume", rtol=2e-3)
        close(float(tr["rate"]["value"]), 2.5 / np.exp(mu) / (vt / 1e9 * T), f"{what}: merger rate", rtol=1e-2)
    else:
        require("rate" not in tr, f"{what}: a rate without a redshift model")
    ppc = [k for k in tr if "_obs_event_" in k]
    if c["kw"].get("posterior_predictive_check", True):
        require(len(ppc) == len(dens) * n and all(f"{p}_obs_event_{n - 1}" in tr for p in dens), f"{what}: predictive draws", got=ppc[:6])
    else:
        require(not ppc, f"{what}: predictive draws although switched off")


@sub(
    fdict(**CASE), quick=64, thorough=1500, modes=("x64", "f32"), split=4,
    corpus=[dict(use={p: True for p in CHOICES}, iid=i, s=s, kw={}, nobs=2, twice=True, top=t) for s, (i, t) in enumerate([(True, "full"), (False, "bare"), (True, "bare"), (True, "full"), (False, "full"), (True, "full")])],
)
def evaluated_model(c):
    """free parameters, priors, densities, likelihood, rate and predictions of a generated configuration against a model built by hand; models of several configurations do not interfere"""
    m1 = build(c, c["s"], "a")
    evaluate(c, *m1[:4], m1[4], "first model")
    if c["twice"]:
        m2 = build(dict(c, use=dict(c["use"], mass_1=True)), c["s"] + 1, "b")
        evaluate(c, *m2[:4], m2[4], "second model")
        evaluate(c, *m1[:4], m1[4], "first model again")
    return f"{len(m1[1])} parameters, {len(m1[2])} free"


@sub(
    fdict(scalar=reals(-5, 5), vec=st.lists(reals(-5, 5), min_size=1, max_size=4), s=seeds),
    quick=40, thorough=500, modes=("x64",),
)
def values_and_lists(c):
    """fixed numbers are passed on as they are, lists become arrays, priors keep their parameters"""
    r = rng(c["s"])
    doc = dict(models=dict(x=dict(model=ND + "Normal", hyper_params=dict(loc=dict(value=c["scalar"]), scale=dict(value=c["vec"]), other=dict(prior=ND + "Dirichlet", prior_params=dict(concentration=[abs(v) + 0.1 for v in c["vec"]])))),
                           y=dict(model="gwinferno.numpyro_distributions.Sine", hyper_params={})))
    cr = parse("v", doc)
    import gwinferno.numpyro_distributions as G
    import numpyro.distributions as D

    require(cr.priors["x_loc"] == c["scalar"], "a fixed number", got=cr.priors["x_loc"])
    close(arr(cr.priors["x_scale"], "fixed list", (len(c["vec"]),)), c["vec"], "a fixed list", rtol=1e-9)
    p = cr.priors["x_other"]
    require(p.dist is D.Dirichlet, "prior class", got=p.dist)
    close(arr(p.params["concentration"], "prior list", (len(c["vec"]),)), [abs(v) + 0.1 for v in c["vec"]], "prior parameters", rtol=1e-9)
    require(cr.sampling_params == ["x_other"], "only priors are sampled", got=cr.sampling_params)
    require(cr.models["x"].model is D.Normal and cr.models["y"].model is G.Sine, "model classes")
    require(sorted(cr.models["x"].params) == ["loc", "other", "scale"] and list(cr.models["y"].params) == [], "hyper-parameter names", got=cr.models["x"].params)
    return f"{len(c['vec'])} values"
