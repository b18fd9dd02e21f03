"""P25: data in effective spins."""

import numpy as np
import xarray as xr
from c_spin_priors_ref import conditional_density
from data_gen import P8, injections, samples, scratch, write_event, write_o3, write_o4
from gens import fdict, rng, seeds
from harness import arr, close, require, sub, tol
from hypothesis import strategies as st

from gwinferno.preprocess import data_collection as D
from gwinferno.preprocess import priors as PR

SETS = [["mass_1", "mass_ratio", "redshift"], ["mass_1", "mass_2", "redshift"], ["mass_ratio", "redshift", "mass_1"]]


def refs(d):
    q = d["mass_ratio"]
    xe = (d["a_1"] * d["cos_tilt_1"] + q * d["a_2"] * d["cos_tilt_2"]) / (1 + q)
    s = lambda i: d[f"a_{i}"] * np.sqrt(1 - d[f"cos_tilt_{i}"] ** 2)
    return xe, np.maximum(s(1), q * (3 + 4 * q) / (4 + 3 * q) * s(2))


def ratio(d, chip, r):
    """new density / old density, its tolerance"""
    xe, xp = refs(d)
    marg = arr(PR.chi_effective_prior_from_isotropic_spins(xe.ravel(), d["mass_ratio"].ravel()))
    if not chip:
        return 4 * marg.reshape(xe.shape), 0.0
    c = np.array([conditional_density(r, *v) for v in zip(xp.ravel(), xe.ravel(), d["mass_ratio"].ravel())])
    return (4 * marg * c[:, 0]).reshape(xe.shape), (4 * marg * c[:, 1]).reshape(xe.shape)


def compare(got, d, old, chip, r, what):
    xe, xp = refs(d)
    close(got("chi_eff"), xe, f"{what}: chi_eff", rtol=tol(1e-9, 1e-5), atol=tol(1e-9, 1e-6))
    k, dk = ratio(d, chip, r)
    # the logarithmic seams of the closed form amplify rounding of the inputs
    close(got("prior") / old, k, f"{what}: prior density relative to the one in component spins", rtol=tol(1e-6, 2e-3) if not chip else 0.1, atol=np.max(dk) if chip else 1e-6)
    if chip:
        bad = np.abs(got("prior") / old - k) > 0.1 * k + dk
        require(not np.any(bad), f"{what}: prior density with chi_p", got=got("prior") / old, want=k, tolerance=dk)
        close(got("chi_p"), xp, f"{what}: chi_p", rtol=tol(1e-9, 1e-5), atol=tol(1e-9, 1e-5))


CASE = dict(chip=st.sampled_from([False, False, True]), s=seeds, n=st.sampled_from([1, 2, 6]), base=st.sampled_from(SETS))


@sub(
    fdict(ev=st.integers(1, 4), **CASE), quick=32, thorough=600, modes=("x64", "f32"), split=4,
    corpus=[dict(ev=3, chip=c, s=i, n=4, base=b) for i, b in enumerate(SETS) for c in (False, True)]
    + [dict(ev=4, chip=False, s=7, n=300, base=SETS[0])],
)
def posterior_samples(c):
    """chi_eff and chi_p of every sample, component-spin density replaced by the effective-spin one, everything else untouched"""
    r = rng(c["s"])
    np.random.seed(c["s"] % 2**32)
    n = c["n"] if not c["chip"] else min(c["n"], 3)
    meta, truth = {}, {}
    for i in range(c["ev"]):
        d = samples(r, n)
        write_event(scratch(f"e{i}.h5"), "wf", "GWTC-3", d, r)
        meta[f"ev{i}"] = dict(file_path=scratch(f"e{i}.h5"), waveform="wf", redshift_prior="comoving", catalog="GWTC-3")
        truth[f"ev{i}"] = d
    names = c["base"] + ["chi_eff"] + (["chi_p"] if c["chip"] else [])
    p = D.load_posterior_dataset(catalog_metadata=meta, param_names=list(names))["posteriors"]
    require(set(names) | {"prior"} <= set(p["param"].values) and len(set(p["param"].values)) == len(p["param"]), "parameters", got=list(p["param"].values), want=names)
    require(list(p["event"].values) == list(meta) and p.sizes["samples"] == n, "events and samples")
    comp = D.load_posterior_dataset(catalog_metadata=meta, param_names=c["base"] + ["a_1", "a_2", "cos_tilt_1", "cos_tilt_2"])["posteriors"]
    for e in meta:
        m1 = arr(p.sel(event=e, param="mass_1").values)
        idx = [int(np.argmin(np.abs(truth[e]["mass_1"] - v))) for v in m1]
        require(len(set(idx)) == n, "samples", got=m1)
        d = {k: v[idx] for k, v in truth[e].items()}
        j = [int(np.argmin(np.abs(arr(comp.sel(event=e, param="mass_1").values) - v))) for v in d["mass_1"]]
        old = arr(comp.sel(event=e, param="prior").values)[j]
        for k in c["base"]:
            close(p.sel(event=e, param=k).values, d[k], f"{k} after the conversion", rtol=tol(1e-12, 1e-6))
        compare(lambda k: arr(p.sel(event=e, param=k).values, k, (n,)), d, old, c["chip"], r, "posterior samples")
    return f"{'chi_eff, chi_p' if c['chip'] else 'chi_eff'}, {c['ev']} events"


@sub(
    fdict(run=st.sampled_from(["o3", "o4a"]), **CASE), quick=32, thorough=600, modes=("x64", "f32"), split=4,
    corpus=[dict(run=o, chip=c, s=i, n=6, base=b) for i, b in enumerate(SETS) for c in (False, True) for o in ("o3", "o4a")]
    + [dict(run=o, chip=False, s=8, n=400, base=SETS[0]) for o in ("o3", "o4a")],
)
def found_injections(c):
    """the same for injections, of which the constants are kept"""
    r = rng(c["s"])
    np.random.seed(c["s"] % 2**32)
    n = 2 * c["n"]
    i = injections(r, n)
    keep = np.arange(n) % 2 == 0
    total, time = int(r.integers(n, 10**7)), float(r.uniform(1e6, 1e8))
    path = scratch("inj.h5")
    if c["run"] == "o3":
        write_o3(path, i, dict(ifar_x=np.where(keep, 5.0, 0.2)), None, np.full(n, 5.0), total, time, "analysis_time_s", False, r)
    else:
        write_o4(path, i, dict(x_far=np.where(keep, 0.2, 5.0)), np.full(n, 5.0), total, time, "analysis_time_s", r)
    d = dict(mass_1=i["mass1"], mass_2=i["mass2"], mass_ratio=i["mass2"] / i["mass1"], redshift=i["z"], a_1=i["a1"], a_2=i["a2"], cos_tilt_1=i["t1"], cos_tilt_2=i["t2"])
    d = {k: v[keep] for k, v in d.items()}
    names = c["base"] + ["chi_eff"] + (["chi_p"] if c["chip"] else [])
    ds = D.load_injection_dataset(path, list(names), through_o4a=c["run"] == "o4a")
    p = ds["injections"]
    m = int(keep.sum())
    require(set(names) | {"prior"} <= set(p["param"].values) and len(set(p["param"].values)) == len(p["param"]), "parameters", got=list(p["param"].values), want=names)
    require(p.sizes["injection"] == m, "number of injections")
    for k in c["base"]:
        close(p.sel(param=k).values, d[k], f"{k} after the conversion", rtol=tol(1e-9, 1e-5))
    old = (np.exp(i["lnp"]) / (i["w"] if c["run"] == "o4a" else 1) * (i["mass1"] if "mass_ratio" in names else 1) * (2 * np.pi * i["a1"] * i["a2"]) ** 2)[keep]
    require(int(ds.attrs["total_generated"]) == total, "number of generated injections", got=ds.attrs.get("total_generated"), want=total)
    close(float(ds.attrs["analysis_time"]), time / (365.25 * 86400), "analysis time in years", rtol=1e-9)
    compare(lambda k: arr(p.sel(param=k).values, k, (m,)), d, old, c["chip"], r, "injections")
    return f"{'chi_eff, chi_p' if c['chip'] else 'chi_eff'}, {c['run']}"
