"""P28: posteriors and population distributions packed into labelled datasets."""

import os

import numpy as np
import xarray as xr
from data_gen import scratch
from gens import fdict, rng, seeds
from harness import arr, close, require, sub
from hypothesis import strategies as st

import jax.numpy as jnp

from gwinferno.pipeline.utils import pdf_dict_to_xarray, posterior_dict_to_xarray



def mixed(r, shape, saved):
    """draws in single or double precision, counts beyond single precision and flags (netCDF has no flags)"""
    kind = int(r.integers(3 if saved else 4))
    v = r.normal(size=shape) * 10.0 ** r.integers(-5, 6)
    return [v, v.astype(np.float32), 2**24 + r.integers(0, 10**6, shape), r.random(shape) < 0.5][kind]


NAMES = ["alpha", "mass_cs", "q_cs", "rate", "lamb", "a1_cs", "tilt_cs_peak", "log_likelihood"]


@sub(
    fdict(n=st.sampled_from([1, 2, 7, 30]), k=st.integers(1, 6), s=seeds, lib=st.sampled_from(["numpy", "jax"]), save=st.booleans()), quick=150, thorough=4000, modes=("x64", "f32"), split=2,
    corpus=[dict(n=n, k=6, s=s, lib=b, save=True) for n, s, b in ((1, 0, "numpy"), (5, 1, "jax"), (5, 2, "numpy"), (4000, 3, "jax"), (4000, 4, "numpy"))],
)
def posteriors(c):
    """one variable per parameter, draws along a common dimension, values unchanged; the dictionary is left alone; survives writing to a file"""
    r = rng(c["s"])
    names = [NAMES[i] for i in r.permutation(len(NAMES))[: c["k"]]]
    shapes = [[], [4], [c["n"]], [3, 2], [1], [2, c["n"], 2], [c["n"], 2]]
    d = {k: mixed(r, [c["n"]] + shapes[r.integers(len(shapes))], c["save"]) for k in names}
    given = {k: (jnp.asarray(v) if c["lib"] == "jax" else v.copy()) for k, v in d.items()}
    d = {k: np.array(v) for k, v in given.items()}
    ids = {k: id(v) for k, v in given.items()}
    ds = posterior_dict_to_xarray(given)
    require(list(given) == names and all(id(given[k]) == ids[k] for k in names), "the dictionary was changed", keys=list(given))
    require(all(np.array_equal(np.asarray(given[k]), d[k]) for k in names), "the arrays were changed")
    require(set(ds.data_vars) == set(names), "variables", got=list(ds.data_vars), want=names)
    if c["save"]:
        path = scratch("post.h5")
        ds.to_netcdf(path)
        with xr.open_dataset(path) as f:
            ds = f.load()
        os.remove(path)
    require(ds.sizes["draw"] == c["n"], "number of draws", got=dict(ds.sizes))
    seen = {}
    for k in names:
        v = ds[k]
        require(v.dims[0] == "draw" and len(set(v.dims)) == d[k].ndim, f"dimensions of {k}", got=v.dims)
        for dim in v.dims[1:]:
            require(seen.setdefault(dim, k) == k, "parameters share a dimension", dim=dim)
        require(np.array_equal(np.asarray(v.values), d[k]), f"values of {k}")
        i = int(r.integers(c["n"]))
        require(np.array_equal(ds.isel(draw=i)[k].values, d[k][i]), f"one draw of {k}")
    return f"{c['lib']}: {max(v.ndim for v in d.values())}d"


PAR = ["mass_1", "mass_ratio", "redshift", "a_1", "cos_tilt_1", "chi_eff"]


@sub(
    fdict(n=st.sampled_from([1, 3, 8]), k=st.integers(1, 6), pops=st.integers(0, 3), s=seeds, lib=st.sampled_from(["numpy", "jax"]), as_list=st.booleans()), quick=200, thorough=4000, split=2,
    corpus=[dict(n=3, k=6, pops=p, s=s, lib="numpy", as_list=a) for s, (p, a) in enumerate([(0, True), (1, True), (2, False), (3, True), (2, True)])]
    + [dict(n=1500, k=6, pops=2, s=9, lib="jax", as_list=False)],
)
def densities(c):
    """one variable per parameter and subpopulation on its own grid; redshift is common to the subpopulations"""
    r = rng(c["s"])
    names = [PAR[i] for i in r.permutation(len(PAR))[: c["k"]]]
    if c["pops"] and "redshift" not in names:
        names.append("redshift")
    pops = [["peak", "continuum", "low_mass"][i] for i in r.permutation(3)[: c["pops"]]] or None
    J = jnp.asarray if c["lib"] == "jax" else (lambda v: v)
    size = {k: int(r.integers(2, 9)) for k in names}
    if r.random() < 0.3:  # grids as long as there are draws
        size[names[0]] = c["n"]
    grid = {k: np.sort(r.random(size[k])).astype(np.float32) for k in names}
    mk = lambda k: r.random((c["n"], size[k])).astype(np.float32)
    pdf, want = {}, {}
    for k in names:
        if pops is None or k == "redshift":
            v = mk(k)
            pdf[k] = J(v)
            want[f"{k}_pdfs"] = (k, v)
        else:
            vs = [mk(k) for _ in pops]
            pdf[k] = [J(v) for v in vs] if c["as_list"] else J(np.array(vs))
            want.update({f"{p}_{k}_pdfs": (k, v) for p, v in zip(pops, vs)})
    keys = list(pdf)
    ds = pdf_dict_to_xarray(pdf, {k: J(v) for k, v in grid.items()}, c["n"], subpop_names=pops) if pops else pdf_dict_to_xarray(pdf, {k: J(v) for k, v in grid.items()}, c["n"])
    require(list(pdf) == keys, "the dictionary was changed")
    require(set(ds.data_vars) == set(want), "variables", got=sorted(ds.data_vars), want=sorted(want))
    for nm, (k, v) in want.items():
        require(ds[nm].dims == ("draw", k), f"dimensions of {nm}", got=ds[nm].dims)
        require(np.array_equal(np.asarray(ds[nm].values), v), f"values of {nm}")
    for k in names:
        require(np.array_equal(np.asarray(ds[k].values), grid[k]), f"grid of {k}")
    require(np.array_equal(np.asarray(ds["draw"].values), np.arange(c["n"])), "draws")
    return f"{c['pops']} subpopulations, {len(names)} parameters"
