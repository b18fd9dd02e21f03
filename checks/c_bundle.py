"""P24: the data bundle read back is the one saved."""

import os

import numpy as np
import xarray as xr
from data_gen import scratch
from gens import fdict, rng, seeds
from harness import arr, close, fail, is_x64, require, sub
from hypothesis import strategies as st

from gwinferno.pipeline.utils import load_pe_and_injections_as_dict
from gwinferno.preprocess.data_collection import save_posterior_samples_and_injection_datasets_as_idata

NAMES = ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "chi_eff"]
SAVE, LOAD = save_posterior_samples_and_injection_datasets_as_idata, load_pe_and_injections_as_dict


def bundle(c, r):
    names = [NAMES[i] for i in r.permutation(len(NAMES))[: c["npar"]]]
    par = names + ["prior"]
    par = [par[i] for i in r.permutation(len(par))]
    ipar = [par[i] for i in r.permutation(len(par))]
    # events of one day, as catalogs name them: some names begin with the whole of another
    stem = [f"GW{100000 + int(v)}" for v in r.permutation(500)[: c["nev"]]]
    evs = [e + ["", f"_{100000 + 7 * i}", "", f"{i}_09"][int(r.integers(4))] for i, e in enumerate(stem)]
    for i in range(1, len(evs)):
        if r.random() < 0.3:
            evs[i] = stem[i - 1] + f"_{200000 + i}"
    evs = [evs[i] for i in r.permutation(len(evs))]
    pe = r.normal(size=(c["nev"], len(par), c["nsamp"])) * 10.0 ** r.integers(-6, 6, (1, len(par), 1))
    inj = r.normal(size=(len(par), c["ninj"])) * 10.0 ** r.integers(-6, 6, (len(par), 1))
    total, time = int(r.integers(1, 2**40)), float(r.uniform(0.01, 3))
    P = xr.DataArray(pe, dims=["event", "param", "samples"], coords=dict(event=evs, param=par, samples=np.arange(c["nsamp"]))).to_dataset(name="posteriors")
    I = xr.DataArray(inj, dims=["param", "injection"], coords=dict(param=ipar, injection=np.arange(c["ninj"])), attrs=dict(total_generated=total, analysis_time=time)).to_dataset(name="injections", promote_attrs=True)
    return P, I, par, ipar, evs, pe, inj, total, time


@sub(
    fdict(
        npar=st.integers(1, 8), nev=st.integers(1, 8), nsamp=st.sampled_from([1, 2, 30]), ninj=st.sampled_from([1, 3, 50]), s=seeds,
        ignore=st.sampled_from(["none", "empty", "some", "first", "last", "unknown", "repeated", "tuple"]), twice=st.booleans(), name=st.sampled_from(["a.h5", "b.h5", "run 1.h5"]),
    ),
    quick=120, thorough=2500, modes=("x64", "f32"), split=2,
    corpus=[dict(npar=8, nev=69, nsamp=500, ninj=20000, s=1, ignore="some", twice=False, name="a.h5"), dict(npar=3, nev=20, nsamp=20, ninj=20, s=2, ignore="some", twice=False, name="a.h5"), dict(npar=7, nev=8, nsamp=8, ninj=8, s=3, ignore="none", twice=False, name="a.h5")]
    + [dict(npar=4, nev=5, nsamp=4, ninj=6, s=s, ignore=i, twice=True, name="a.h5") for s, i in enumerate(["none", "empty", "some", "first", "last", "unknown", "repeated", "tuple"])],
)
def round_trip(c):
    """parameters, samples, injections and constants come back under their own names; ignored events are left out and nothing else is; a file saved again holds the new data"""
    r = rng(c["s"])
    path = scratch(c["name"])
    if os.path.exists(path) and r.random() < 0.5:
        os.remove(path)
    for k in range(2 if c["twice"] else 1):
        P, I, par, ipar, evs, pe, inj, total, time = bundle(c, r)
        SAVE(path, P, I)  # over the older one
        if k == 0 and r.random() < 0.5:
            LOAD(path)
    ign = {"none": None, "empty": [], "some": [e for e in evs if r.random() < 0.5], "first": evs[:1], "last": evs[-1:], "unknown": ["GW000000"] + evs[1:2], "repeated": evs[:1] * 2, "tuple": tuple(evs[1:3])}[c["ignore"]]
    keep = [i for i, e in enumerate(evs) if e not in (ign or ())]
    if not keep:
        ign, keep = None, list(range(len(evs)))
    for again in range(2):  # reading changes nothing
        pd, idd, const, pn = LOAD(path) if ign is None and again else LOAD(path, ignore=ign)
        require(list(pn) == par and sorted(pd) == sorted(par) and sorted(idd) == sorted(ipar), "parameter names", got=list(pn), want=par)
        rt = 1e-12 if is_x64() else 2e-7
        for j, k in enumerate(par):
            close(arr(pd[k], k, (len(keep), c["nsamp"])), pe[keep, j], f"samples of {k}", rtol=rt, ignore=ign)
        for j, k in enumerate(ipar):
            close(arr(idd[k], k, (c["ninj"],)), inj[j], f"injections of {k}", rtol=rt)
        require(int(const["total_inj"]) == total, "number of generated injections", got=const["total_inj"], want=total)
        close(float(const["obs_time"]), time, "observing time", rtol=1e-12)
        require(int(const["nObs"]) == len(keep), "number of events", got=const["nObs"], want=len(keep))
    return f"{c['ignore']}: {len(evs) - len(keep)} of {len(evs)} ignored"


@sub(fdict(name=st.sampled_from(["data.nc", "data", "data.hdf5", "h5", "x.netcdf"]), s=seeds), quick=20, thorough=100)
def extension(c):
    """a file name without the .h5 extension is refused and nothing is written"""
    P, I = bundle(dict(npar=2, nev=2, nsamp=2, ninj=2), rng(c["s"]))[:2]
    path = scratch(c["name"])
    try:
        SAVE(path, P, I)
    except AssertionError:
        require(not os.path.exists(path), "a file was written although its name was refused", name=c["name"])
        return c["name"]
    finally:
        if os.path.exists(path):
            os.remove(path)
    fail("the file name was accepted", name=c["name"])
