"""P23: found injections."""

import numpy as np
from data_gen import TIMES, YEAR, far_values, injections, scratch, write_o3, write_o4
from gens import fdict, rng, seeds
from harness import arr, close, fail, require, sub, tol
from hypothesis import strategies as st

from gwinferno.preprocess import data_collection as D
from gwinferno.preprocess import selection as S

SETS = [
    ["mass_1", "mass_ratio", "redshift"],
    ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"],
    ["mass_1", "mass_2", "redshift"],
    ["redshift", "mass_ratio"],
    ["a_1", "a_2", "redshift"],
    ["cos_tilt_2", "a_1", "mass_1", "mass_2"],
]
IFAR = st.sampled_from([1, 1.0, 0.5, 2, 10, 100.0])
SNR = st.sampled_from([10, 8.0, 9, 12.5])


def expected(d, keep, names, base):
    w = {"mass_1": d["mass1"], "mass_2": d["mass2"], "mass_ratio": d["mass2"] / d["mass1"], "redshift": d["z"]}
    prior = base.copy()
    if "mass_ratio" in names:
        prior = prior * d["mass1"]
    if "a_1" in names:
        for i in (1, 2):
            w[f"a_{i}"], w[f"cos_tilt_{i}"] = d[f"a{i}"], d[f"t{i}"]
            prior = prior * 2 * np.pi * d[f"a{i}"] ** 2
    w = {k: w[k][keep] for k in w}
    w["prior"] = prior[keep]
    return w


def compare(ds, want, names, total, time, rt, aligned=False):
    p = ds["injections"]
    n = len(want["prior"])
    require(set(p["param"].values) == set(names) | {"prior"} and len(p["param"]) == len(names) + 1, "parameters", got=list(p["param"].values), want=names)
    require(p.sizes["injection"] == n, "number of found injections", got=p.sizes["injection"], want=n)
    for k in names + ["prior"]:
        if aligned and k == "prior":
            continue
        close(arr(p.sel(param=k).values, k, (n,)), want[k], k, rtol=rt if k == "prior" else tol(1e-9, 1e-5), atol=0 if k == "prior" else 1e-9, names=names)
    require(int(ds.attrs["total_generated"]) == total, "number of generated injections", got=ds.attrs["total_generated"], want=total)
    close(float(ds.attrs["analysis_time"]), time / YEAR, "analysis time in years", rtol=1e-9)


def thr_values(r, n, thr, frac):
    v = np.where(r.random(n) < frac, thr * (1.02 + 2 * r.random(n)), thr * (0.98 - 0.9 * r.random(n)))
    return v


CASE = dict(n=st.sampled_from([3, 20, 200]), names=st.sampled_from(SETS), s=seeds, ifar=IFAR, snr=SNR, time=st.sampled_from(TIMES), default=st.booleans(), pipes=st.integers(1, 4))


@sub(
    fdict(has_names=st.booleans(), aligned=st.sampled_from([False, False, False, True]), **CASE), quick=200, thorough=4000, modes=("x64", "f32"), split=2,
    corpus=[dict(n=200, names=nm, s=s, ifar=2, snr=9, time="analysis_time_s", default=False, pipes=3, has_names=h, aligned=False) for s, nm in enumerate(SETS) for h in (True, False)]
    + [dict(n=30000, names=SETS[1], s=5, ifar=1, snr=10, time="analysis_time_s", default=True, pipes=4, has_names=True, aligned=False)],
)
def o3_files(c):
    """found: any pipeline above the inverse false alarm rate, or an O1/O2 injection above the signal-to-noise ratio; prior density with the Jacobians of the requested parameters"""
    r = rng(c["s"])
    n = c["n"]
    ifar, snr = (1, 10) if c["default"] else (c["ifar"], c["snr"])
    d = injections(r, n, c["aligned"])
    ifars = {k: thr_values(r, n, ifar, 0.25) for k in ["ifar_pycbc_bbh", "ifar_gstlal", "IFAR_mbta", "ifar_cwb"][: c["pipes"]]}
    sn = thr_values(r, n, snr, 0.5)
    names = np.array([["o1", "o2", "o3"][i] for i in r.integers(0, 3, n)]) if c["has_names"] else None
    keep = np.any([v > ifar for v in ifars.values()], axis=0)
    if names is not None:
        keep |= np.isin(names, ["o1", "o2"]) & (sn > snr)
    if not keep.any():
        k0 = list(ifars)[0]
        ifars[k0][0] = ifar * 3
        keep[0] = True
    total, time = int(r.integers(n, 10**8)), float(r.uniform(1e5, 1e8))
    path = scratch("o3.h5")
    write_o3(path, d, ifars, names, sn, total, time, c["time"], c["aligned"], r)
    kw = {} if c["default"] else dict(ifar_threshold=ifar, snr_threshold=snr)
    ds = D.load_injection_dataset(path, list(c["names"]), **kw)
    compare(ds, expected(d, keep, c["names"], np.exp(d["lnp"])), list(c["names"]), total, time, tol(1e-9, 1e-4), c["aligned"])
    return f"{'names' if c['has_names'] else 'no names'}, {keep.sum() * 4 // n}/4 found" if 0 < keep.sum() < n else None


@sub(
    fdict(**CASE), quick=200, thorough=4000, modes=("x64", "f32"), split=2,
    corpus=[dict(n=200, names=nm, s=s, ifar=2, snr=9, time="analysis_time", default=False, pipes=p) for s, nm in enumerate(SETS) for p in (1, 4)]
    + [dict(n=30000, names=SETS[1], s=5, ifar=1, snr=10, time="analysis_time", default=True, pipes=4)],
)
def o4a_files(c):
    """found: network signal-to-noise ratio or any pipeline's false alarm rate; draw density divided by the injection weights, with the Jacobians of the requested parameters"""
    r = rng(c["s"])
    n = c["n"]
    ifar, snr = (1, 10) if c["default"] else (c["ifar"], c["snr"])
    d = injections(r, n)
    inv = {k: thr_values(r, n, ifar, 0.2) for k in ["gstlal_far", "pycbc_far", "mbta_far", "cwb-bbh_far"][: c["pipes"]]}
    sn = thr_values(r, n, snr, 0.3)
    keep = np.any([v > ifar for v in inv.values()], axis=0) | (sn > snr)
    if not keep.any():
        sn[0], keep[0] = snr * 2, True
    total, time = int(r.integers(n, 10**8)), float(r.uniform(1e5, 1e8))
    path = scratch("o4.h5")
    write_o4(path, d, {k: 1 / v for k, v in inv.items()}, sn, total, time, c["time"], r)
    kw = {} if c["default"] else dict(ifar_threshold=ifar, snr_threshold=snr)
    ds = D.load_injection_dataset(path, list(c["names"]), through_o4a=True, **kw)
    want = expected(d, keep, c["names"], np.exp(d["lnp"]) / d["w"])
    compare(ds, want, list(c["names"]), total, time, tol(1e-8, 1e-4))
    if not c["default"]:
        a = S.get_o4a_cumulative_injection_dict(path, list(c["names"]), ifar=ifar, snr=snr)
        close(a.sel(param="prior").values, want["prior"], "prior density (array)", rtol=tol(1e-8, 1e-4))
    return f"{keep.sum() * 4 // n}/4 found" if 0 < keep.sum() < n else None


@sub(fdict(s=seeds, which=st.sampled_from(["neither", "o3 time", "o4 time"])), quick=30, thorough=200)
def refusals(c):
    """neither observing run requested, or a file without an analysis time"""
    r = rng(c["s"])
    d = injections(r, 6)
    path = scratch("bad.h5")
    key = "analysis_time" if c["which"] == "neither" else "something_else"
    if c["which"] == "o4 time":
        write_o4(path, d, dict(a_far=np.full(6, 0.1)), np.full(6, 12.0), 100, 1e7, key, r)
    else:
        write_o3(path, d, dict(ifar_a=np.full(6, 5.0)), None, np.full(6, 12.0), 100, 1e7, key, False, r)
    try:
        D.load_injection_dataset(path, ["mass_1", "redshift"], through_o3=c["which"] == "o3 time", through_o4a=c["which"] == "o4 time")
    except Exception:
        return c["which"]
    fail("a request that cannot be answered was answered", which=c["which"])
