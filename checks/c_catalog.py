"""P22: posterior samples of a catalog."""

import json
import os

import numpy as np
from data_gen import NEW, P8, REF, samples, scratch, write_event
from gens import fdict, reals, rng, seeds
from harness import arr, close, fail, require, sub, tol
from hypothesis import strategies as st
from scipy.integrate import quad

import jax.numpy as jnp

from gwinferno.preprocess import data_collection as D

SETS = [
    ["mass_1", "mass_ratio", "redshift"],
    ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"],
    ["redshift"],
    ["mass_1"],
    ["mass_ratio"],
    ["a_1", "redshift"],
    ["mass_1", "mass_2", "redshift"],
    ["cos_tilt_1", "cos_tilt_2", "mass_1", "redshift"],
    ["redshift", "mass_ratio", "mass_1", "a_2", "a_1"],
]


def pz(z, euclid):
    z = np.asarray(z, float)
    dc = REF.Dc(z)
    return (1 + z) ** 2 * dc**2 * (dc + (1 + z) * REF.dh / REF.E(z)) if euclid else REF.dVcdz(z) / (1 + z)


def norm(zmax, euclid):
    return sum(quad(lambda z: float(pz(z, euclid)), a, b, epsrel=1e-8)[0] for a, b in ((0, zmax / 2), (zmax / 2, zmax)))


EVENT = st.fixed_dictionaries(
    dict(cat=st.sampled_from(["GWTC-1", "GWTC-2.1", "GWTC-3"]), zp=st.sampled_from(["euclidean", "comoving"]), n=st.sampled_from([1, 2, 7, 40, 41, 150]), heavy=st.booleans(), zmax=st.sampled_from([0.4, 1.5, 1.85, 2.6]))
)


@sub(
    fdict(events=st.lists(EVENT, min_size=1, max_size=5), names=st.sampled_from(SETS), s=seeds, mmax=st.sampled_from([100.0, 60.0, 45.5]), key=st.booleans(), default=st.booleans()),
    quick=120, thorough=2500, modes=("x64", "f32"), split=4,
    corpus=[
        dict(events=[dict(cat=c, zp=z, n=n, heavy=False, zmax=1.5) for c, z, n in (("GWTC-1", "euclidean", 10400), ("GWTC-3", "comoving", 10010), ("GWTC-2.1", "euclidean", 12000))], names=SETS[1], s=1, mmax=100.0, key=True, default=True),
        dict(events=[dict(cat=c, zp=z, n=n, heavy=True, zmax=2.6) for c, z, n in (("GWTC-2.1", "euclidean", 150), ("GWTC-1", "comoving", 140), ("GWTC-3", "comoving", 150))], names=SETS[1], s=2, mmax=60.0, key=False, default=False),
        dict(events=[dict(cat=c, zp=z, n=n, heavy=True, zmax=0.4) for c, z, n in (("GWTC-3", "comoving", 41), ("GWTC-1", "euclidean", 40))], names=SETS[4], s=3, mmax=60.0, key=False, default=False),
        dict(events=[dict(cat=["GWTC-1", "GWTC-2.1", "GWTC-3"][i % 3], zp=["euclidean", "comoving"][i // 3 % 2], n=60 + i, heavy=i % 5 == 0, zmax=0.4 if i else 1.85) for i in range(18)], names=SETS[1], s=4, mmax=80.0, key=True, default=False),
    ],
)
def catalogs(c):
    """every output sample is one sample of the file with all its parameters together, without replacement, equally many per event, below the mass limit, with the prior density of its own catalog convention"""
    r = rng(c["s"])
    mmax = 100.0 if c["default"] else c["mmax"]
    meta, truth = {}, {}
    for i, e in enumerate(c["events"]):
        ev = f"GW{r.integers(10**5, 10**6)}_{i}"
        d = samples(r, e["n"], mhi=0.95 * mmax, zmax=e["zmax"])
        keep = np.ones(e["n"], bool)
        if e["heavy"] and e["cat"] != "GWTC-1":
            over = r.random(e["n"]) < 0.3
            over[r.integers(e["n"])] = e["n"] > 1
            over[0] = False
            d["mass_1"] = np.where(over, mmax * (1.01 + 0.5 * r.random(e["n"])), d["mass_1"])
            d["mass_2"] = d["mass_ratio"] * d["mass_1"]
            keep = ~over
        path = scratch(f"ev{i}.h5")
        wf = ["IMRPhenomPv2", "C01:Mixed", "Overall_posterior"][r.integers(3)]
        write_event(path, wf, e["cat"], d, r)
        meta[ev] = dict(file_path=path, waveform=wf, redshift_prior=e["zp"], catalog=e["cat"])
        truth[ev] = {k: v[keep] for k, v in d.items()}
    evs = list(meta)
    np.random.seed(c["s"] % 2**32)
    before = json.dumps(meta)
    names = list(c["names"])
    kw = {} if c["default"] else dict(maximum_mass=mmax)
    if c["key"]:
        kf = scratch("catalog.json")
        with open(kf, "w") as f:
            json.dump(meta, f)
        kw["key_file"] = kf
    else:
        kw["catalog_metadata"] = meta
    out = D.load_posterior_dataset(param_names=names, **kw)
    require(json.dumps(meta) == before and names == c["names"], "the arguments were changed")
    p = out["posteriors"]
    require(list(p["event"].values) == evs, "events", got=list(p["event"].values), want=evs)
    require(set(p["param"].values) == set(names) | {"prior"} and len(p["param"]) == len(names) + 1, "parameters", got=list(p["param"].values), want=names)
    n = min([10000] + [len(t["a_1"]) for t in truth.values()])
    require(p.sizes["samples"] == n, "number of samples", got=p.sizes["samples"], want=n, sizes=[len(t["a_1"]) for t in truth.values()])
    # the density is normalised up to the largest redshift among the kept samples
    zall = float(np.max(p.sel(param="redshift").values)) if "redshift" in names else 0.0
    fields = {}
    for e, ev in zip(c["events"], evs):
        t = truth[ev]
        got = {k: arr(p.sel(event=ev, param=k).values, f"{k} of an event", (n,)) for k in names + ["prior"]}
        # which sample of the file is this? (the values are distinct)
        gw1 = e["cat"] == "GWTC-1"
        rt = 1e-4 if gw1 else tol(1e-12, 1e-6)
        if len(t["a_1"]) <= 500:
            idx = np.argmin(sum(np.abs(got[k][:, None] - t[k][None]) / max(np.ptp(t[k]), 1e-9) for k in names), axis=1) if len(t["a_1"]) > 1 else np.zeros(n, int)
        else:  # thousands of samples: by a parameter that is copied exactly
            k = next(k for k in ("a_1", "a_2", "cos_tilt_1", "cos_tilt_2") if k in names)
            o = np.argsort(t[k])
            idx = o[np.clip(np.searchsorted(t[k][o], got[k] - tol(1e-13, 0)), 0, len(o) - 1)]
            if not tol(True, False):
                idx = None
        if idx is not None:
            require(len(set(idx.tolist())) == n, "a sample was used twice or is not in the file", event=e, n=n, distinct=len(set(idx.tolist())))
            for k in names:
                close(got[k], t[k][idx], f"{k} of {e['cat']}", rtol=rt, atol=1e-5 if gw1 else 0)
            u = {k: v[idx] for k, v in t.items()}
            want = np.ones(n)
            prt = tol(1e-9, 1e-5) + (1e-3 if gw1 else 0)
            if "redshift" in names:
                top = max(1.9, zall) * 1.01
                eu = e["zp"] == "euclidean"
                fields.setdefault(eu, norm(top, eu))
                want = want * pz(u["redshift"], eu) / fields[eu]
                prt = 3e-3
            if "mass_1" in names:
                want = want * (1 + u["redshift"]) ** 2
            if "mass_ratio" in names:
                want = want * u["mass_1"]
            if "a_1" in names:
                want = want / 4
            close(got["prior"], want, f"prior density ({e['cat']}, {e['zp']})", rtol=prt, names=names)
    if n < min(len(t["a_1"]) for t in truth.values()) or len(evs) > 1 or any(e["heavy"] for e in c["events"]):
        return f"{len(evs)} events, {'capped' if n == 10000 else 'all'} samples"
    return None


@sub(fdict(s=seeds, n=st.integers(60, 400), extra=st.integers(60, 300)), quick=30, thorough=500, modes=("x64",))
def downsampling(c):
    """which samples of a larger event survive is random: over the file's order they are spread evenly, and differ from one random state to another"""
    r = rng(c["s"])
    cat = {}
    for i, m in enumerate((c["n"], c["n"] + c["extra"])):
        d = samples(r, m)
        d["a_1"] = (np.arange(m) + 0.5) / m
        rec = np.zeros(m, dtype=[(NEW[k], "f8") for k in P8])
        for k in P8:
            rec[NEW[k]] = d[k]
        cat[f"ev{i}"] = dict(posterior=rec, redshift_prior="comoving", catalog="GWTC-3")
    outs = []
    for s in (c["s"] % 2**32, (c["s"] + 1) % 2**32):
        np.random.seed(s)
        ds = D.processed_catalog_dataset_from_dict(cat)
        v = arr(ds["ev1"].sel(param="a_1").values, "samples", (c["n"],))
        require(len(np.unique(v)) == c["n"], "a sample was used twice")
        sd = 1 / np.sqrt(12 * c["n"])
        require(abs(np.mean(v) - 0.5) < 6.5 * sd, "kept samples are not spread over the file", mean=np.mean(v))
        require(np.array_equal(np.sort(arr(ds["ev0"].sel(param="a_1").values)), cat["ev0"]["posterior"]["a_1"]), "an event of the smallest size loses nothing")
        outs.append(np.sort(v))
    require(not np.array_equal(*outs), "the same samples are kept whatever the random state")
    return f"{c['extra'] * 10 // (c['extra'] + c['n'])}0% dropped"


@sub(fdict(zp=st.sampled_from(["uniform", "Euclidean", "comovin", "", "none"]), s=seeds, pos=st.integers(0, 2), n=st.integers(1, 3)), quick=40, thorough=300, modes=("x64",))
def unknown_prior(c):
    """an unknown redshift prior is refused, wherever it occurs"""
    r = rng(c["s"])
    meta = {}
    for i in range(c["n"]):
        path = scratch(f"u{i}.h5")
        write_event(path, "wf", "GWTC-3", samples(r, 5), r)
        meta[f"e{i}"] = dict(file_path=path, waveform="wf", redshift_prior=c["zp"] if i == c["pos"] % c["n"] else "comoving", catalog="GWTC-3")
    try:
        D.load_posterior_dataset(catalog_metadata=meta, param_names=["mass_1", "redshift"])
    except AssertionError:
        return "refused"
    fail("an unknown redshift prior was accepted", prior=c["zp"])


@sub(fdict(z=st.lists(reals(0.05, 2.3), min_size=1, max_size=8), eu=st.booleans()), quick=100, thorough=2000, modes=("x64", "f32"))
def redshift_prior(c):
    """luminosity-distance-squared (euclidean) and comoving-volume densities in redshift"""
    z = np.array(c["z"])
    close(arr(D.dl_2_prior_on_z(jnp.asarray(z), euclidean=c["eu"]), "density", z.shape), pz(z, c["eu"]), "redshift prior", rtol=1e-3, z=z)
    close(D.dl_2_prior_on_z(jnp.asarray(z)), pz(z, False), "redshift prior (default)", rtol=1e-3)
    return "euclidean" if c["eu"] else "comoving"


@sub(fdict(given=st.sampled_from([dict(), dict(maximum_mass=80.0), dict(param_names=["mass_1"])])), quick=5, thorough=5, modes=("x64",))
def nothing_given(c):
    """neither metadata nor a key file: the documented error"""
    try:
        D.load_posterior_dataset(**c["given"])
    except AssertionError:
        return str(sorted(c["given"]))
    fail("a catalog was loaded from nothing")
