"""P01: distances and volumes of a flat cosmology; P02 shares the reference."""

import numpy as np
from gens import fdict, logreals, reals, rng, seeds, shapes
from harness import arr, cast, close, finite, fnum, require, sub, tol
from hypothesis import strategies as st

import jax.numpy as jnp
from cosmo_ref import Ref, make, params

from gwinferno.cosmology import PLANCK_2015_Cosmology, PLANCK_2015_LVK_Cosmology

Z = st.one_of(reals(0.0, 9.9, special=[0.0, 1.0]), logreals(1e-3, 9.9), reals(0.0, 1.0))


@sub(
    fdict(par=params, ztop=reals(0.3, 9.0), dz=st.sampled_from([0.001, 0.002, 0.005, 0.01]), s=seeds, shape=shapes(), frac=st.lists(reals(0, 1), min_size=1, max_size=4)),
    quick=30, thorough=500, modes=("x64", "f32"),
    corpus=[dict(par=[0.3, 0.0, 67.74], ztop=2.0, dz=0.001, s=1, shape=[24], frac=[1.0, 0.5])],
)
def distances_and_volumes(c):
    """Dc, DL, dVc/dz, log dVc/dz and E of any flat cosmology against adaptive quadrature"""
    cosmo = make(c["par"], c["ztop"], c["dz"])
    ref = Ref(c["par"])
    n = int(np.prod(c["shape"]))
    r = rng(c["s"])
    z = c["ztop"] * np.where(r.random(n) < 0.3, r.random(n) ** 3, r.random(n))
    k = min((n + 1) // 2 if n > 1 else c["s"] % 2, len(c["frac"]))
    z[:k] = np.array(c["frac"][:k]) * c["ztop"]
    z = cast(np.minimum(z, c["ztop"]).reshape(c["shape"]))
    zj = jnp.asarray(z)
    h, dz = ref.dh, c["dz"]
    kw = dict(par=c["par"], dz=dz)
    rt = tol(1e-6, 5e-5)
    at = 0.6 * h * dz**2 + tol(0, 1e-3 * dz * h)
    dc = ref.Dc(z)
    close(cosmo.z2E(zj), ref.E(z), "E(z)", rtol=tol(1e-12, 3e-6), **kw)
    close(cosmo.dDcdz(zj), h / ref.E(z), "dDc/dz", rtol=tol(1e-12, 3e-6), **kw)
    close(arr(cosmo.z2Dc(zj, dz=dz), "comoving distance", z.shape), dc, "comoving distance", rtol=rt, atol=at, **kw)
    close(arr(cosmo.z2DL(zj, dz=dz), "luminosity distance", z.shape), dc * (1 + z), "luminosity distance", rtol=rt, atol=2 * at, **kw)
    dv = 4 * np.pi * dc**2 * h / ref.E(z)
    dva = 4 * np.pi * h / ref.E(z) * at * (2 * dc + at)
    got = arr(cosmo.dVcdz(zj, dz=dz), "dVc/dz", z.shape)
    ok = np.abs(got - dv) <= 3 * rt * dv + dva
    require(np.all(ok), "dVc/dz differs from 4 pi Dc^2 dDc/dz", got=got, want=dv, z=z, **kw)
    # the logarithm belongs to the same number
    pos = z > 0
    lg = arr(cosmo.logdVcdz(zj, dz=dz), "log dVc/dz", z.shape)
    close(lg[pos], np.log(got[pos]), "log dVc/dz against dVc/dz", rtol=tol(1e-9, 1e-5), atol=1e-5)
    # with the distance supplied by the caller
    mine = cast(dc * 1.25 + 10)
    want = 4 * np.pi * mine**2 * h / ref.E(z)
    close(cosmo.dVcdz(zj, Dc=jnp.asarray(mine)), want, "dVc/dz at a supplied distance", rtol=tol(1e-10, 1e-5))
    close(cosmo.logdVcdz(zj, Dc=jnp.asarray(mine)), np.log(want), "log dVc/dz at a supplied distance", rtol=tol(1e-10, 1e-5))
    # monotone in redshift
    flat = np.sort(np.unique(z.ravel()))
    if len(flat) > 1:
        d = arr(cosmo.z2DL(jnp.asarray(flat), dz=dz))
        require(np.all(np.diff(d) >= 0), "luminosity distance decreases with redshift", z=flat, DL=d)
        far = np.diff(flat) > tol(1e-6, 1e-3)
        require(np.all(np.diff(d)[far] > 0), "luminosity distance is not strictly increasing", z=flat, DL=d)
    return f"radiation={c['par'][1] > 0}" if np.any(z > 5 * dz) else None


@sub(
    fdict(par=params, ztop=reals(0.3, 6.0), dz=st.sampled_from([0.002, 0.005, 0.01])),
    quick=20, thorough=300, modes=("x64", "f32"),
)
def tables(c):
    """the tabulated distance, luminosity distance and volume up to the requested redshift"""
    cosmo = make(c["par"], c["ztop"], c["dz"])
    ref = Ref(c["par"])
    z = arr(cosmo.z, "z grid")
    require(z.ndim == 1 and len(z) >= 2 and z[0] == 0 and np.all(np.diff(z) > 0), "the redshift grid does not start at 0 and increase", z=z)
    require(z[-1] >= c["ztop"] * (1 - 1e-6), "the table does not reach the requested redshift", last=z[-1], ztop=c["ztop"])
    k = np.unique(np.linspace(0, len(z) - 1, 40).astype(int))
    dc = ref.Dc(z[k])
    h, dz = ref.dh, c["dz"]
    close(arr(cosmo.Dc, "Dc table", z.shape)[k], dc, "Dc table", rtol=tol(1e-6, 5e-5), atol=h * dz**2 * 0.6)
    close(arr(cosmo.DL, "DL table", z.shape)[k], dc * (1 + z[k]), "DL table", rtol=tol(1e-6, 5e-5), atol=2 * h * dz**2 * 0.6)
    vc = 4 * np.pi / 3 * dc**3  # flat space
    close(arr(cosmo.Vc, "Vc table", z.shape)[k], vc, "comoving volume table", rtol=tol(3e-6, 3e-4), atol=4 * np.pi * h**3 * dz**2 * 3 * z[k] + 1e-9)
    return "table"


def _planck(which):
    from astropy import units as u
    from astropy.cosmology import FlatLambdaCDM

    h0, om = {"planck": (67.74, 0.3089), "lvk": (67.90, 0.3065)}[which]
    return FlatLambdaCDM(H0=h0 * u.km / u.s / u.Mpc, Om0=om, Tcmb0=0.0)


@sub(
    fdict(which=st.sampled_from(["planck", "lvk"]), z=st.lists(Z, min_size=6, max_size=6), two_d=st.booleans()),
    quick=40, thorough=2000, modes=("x64", "f32"),
)
def shipped_cosmologies(c):
    """the two shipped cosmologies against astropy, out to the edge of their default tables"""
    cosmo = {"planck": PLANCK_2015_Cosmology, "lvk": PLANCK_2015_LVK_Cosmology}[c["which"]]
    a = _planck(c["which"])
    z = cast(c["z"])
    if c["two_d"]:
        z = z.reshape(3, 2)
    zj = jnp.asarray(z)
    dc = a.comoving_distance(z).value
    h = a.hubble_distance.value
    at = h * 1e-6 * 0.6
    rt = tol(1e-6, 5e-5)
    close(cosmo.z2Dc(zj), dc, "comoving distance", rtol=rt, atol=at)
    close(cosmo.z2DL(zj), a.luminosity_distance(z).value, "luminosity distance", rtol=rt, atol=2 * at)
    dv = a.differential_comoving_volume(z).value * 4 * np.pi
    got = arr(cosmo.dVcdz(zj), "dVc/dz", z.shape)
    ok = np.abs(got - dv) <= 3 * rt * dv + 4 * np.pi * h * at * (2 * dc + at)
    require(np.all(ok), "dVc/dz differs from astropy", got=got, want=dv, z=z)
    close(cosmo.DL2z(jnp.asarray(cast(a.luminosity_distance(z).value))), z, "redshift at a luminosity distance", rtol=rt * 2, atol=2e-6)
    return c["which"] if np.any(z > 0.01) else None


@sub(
    fdict(par=params, top=reals(0.2, 2.0), zs=st.lists(reals(0.0, 8.0, special=[0.0]), min_size=1, max_size=7), shape=st.sampled_from(["list", "row", "scalar"]), dz=st.sampled_from([0.002, 0.005])),
    quick=30, thorough=600, modes=("x64", "f32"), split=2,
    corpus=[dict(par=[0.3, 0.0, 67.9], top=1.0, zs=[0.2, 5.0, 0.1], shape="list", dz=0.005), dict(par=[0.3, 0.0, 67.9], top=1.0, zs=[7.0, 0.1], shape="row", dz=0.005)],
)
def beyond_the_table(c):
    """arrays in any order, partly beyond the table a fresh object starts with: distances, and redshifts back from distances"""
    ref = Ref(c["par"])
    z = np.array(c["zs"][:1] if c["shape"] == "scalar" else c["zs"])
    z = cast(z[0] if c["shape"] == "scalar" else z[None] if c["shape"] == "row" else z)
    h, dz, rt = ref.dh, c["dz"], tol(1e-6, 5e-5)
    dc = ref.Dc(z)
    at = 1.2 * h * dz**2 + tol(0, 1e-3 * dz * h)
    new = lambda: make(c["par"], c["top"], dz)
    close(arr(new().z2Dc(jnp.asarray(z), dz=dz), "comoving distance", z.shape), dc, "comoving distance beyond the table", rtol=rt, atol=at, z=z)
    close(arr(new().z2DL(jnp.asarray(z), dz=dz), "luminosity distance", z.shape), dc * (1 + z), "luminosity distance beyond the table", rtol=rt, atol=at * (1 + z), z=z)
    back = arr(new().DL2z(jnp.asarray(cast(dc * (1 + z))), dz=dz), "redshift", z.shape)
    # d DL / dz is never below dDc/dz, nor below DL / (1 + z)
    slope = np.maximum(h / ref.E(z), dc)
    close(back, z, "redshift at a luminosity distance beyond the table", rtol=rt, atol=(at * (1 + z) + tol(1e-9, 3e-6) * (1 + z) * dc) / slope + tol(1e-9, 1e-5), z=z)
    return "mixed" if np.any(z > c["top"]) and np.any(z < c["top"]) else "beyond" if np.any(z > c["top"]) else "inside"
