"""P32: an analysis assembled from the package's parts evaluates the population it describes, from raw files to log likelihood."""

import json
import os

import numpy as np
from checks.c_catalog import norm, pz
from checks.c_injections import expected as found_injections
from checks.c_likelihood import FLAGS, expected, factor, traced
from checks.c_redshift import REF, quad
from checks_ref import beta_ref, powerlaw_ref, truncnorm_ref
from data_gen import YEAR, injections, samples, scratch, thresholds, write_event, write_o3, write_o4
from gens import fdict, reals, rng, seeds
from harness import arr, cast, close, fnum, require, sub, tol
from hypothesis import strategies as st
from model_ref import Curve
import harness

import jax
import jax.numpy as jnp

from gwinferno.models.parametric import parametric as MP
from gwinferno.pipeline import utils as U
from gwinferno.preprocess import data_collection as D

harness.SUBS.clear()
J = jnp.asarray
NAMES = ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
GEN = dict(
    s=seeds, nev=st.integers(2, 4), cats=st.lists(st.sampled_from(["GWTC-1", "GWTC-2.1", "GWTC-3"]), min_size=4, max_size=4), zps=st.lists(st.sampled_from(["euclidean", "comoving"]), min_size=4, max_size=4),
    o4=st.booleans(), ignore=st.sampled_from(["none", "none", "first", "middle", "last"]), size=st.sampled_from(["some", "some", "few"]), ifar=st.sampled_from([1, 1, 0.5, 2.0, 10]), snr=st.sampled_from([10, 10, 8.0, 12]), top=st.sampled_from([None, None, 60.0]), key=st.booleans(), m2=st.booleans(),
    flags=st.sampled_from(["default", "default", "plain", "marginal", "variance", "neff+marginal"]), log=st.booleans(), how=st.sampled_from(["eager", "jit"]), rate=st.sampled_from([True, True, False]), mmin=reals(3.0, 6.0), mmax=reals(70.0, 100.0), lamb=reals(-3.0, 6.0, special=[0.0, 2.7]), order=st.booleans(),
)


PLAIN = dict(ignore="none", size="some", ifar=1, snr=10, top=None, key=False, m2=False, flags="default", log=False, how="eager", rate=True)
OTHER = dict(ignore="first", size="some", ifar=2.0, snr=8.0, top=60.0, key=True, m2=True, flags="plain", log=True, how="jit", rate=True)


def files(c, r):
    """raw files -> posterior and injection dictionaries as an analysis loads them, constants, values and the reference densities of the two priors"""
    n0, NI = {"some": (48, 2000), "few": (900, 900), "large": (2500, 20000), "capped": (10000, 3000)}[c["size"]]
    nev = c["nev"]
    gone = {"none": None, "first": 0, "middle": nev // 2, "last": nev - 1}[c["ignore"]]
    base = 1 if gone == 0 else 0  # the smallest event, none of whose samples are lost, has the smallest redshift
    top = 100.0 if c["top"] is None else c["top"]
    meta, truth = {}, {}
    for i in range(nev):
        cat = c["cats"][i % 4] if i != base or c["cats"][i % 4] != "GWTC-1" else "GWTC-3"
        n = n0 if i == base else n0 + int(r.integers(0, 32))
        d = samples(r, n, mlo=5.0, mhi=min(0.97 * top, 1.1 * c["mmax"]), zmax=[1.2, 1.6, 0.9, 1.4][i % 4])
        d["redshift"] = np.maximum(d["redshift"], 0.06)
        if i == base:
            d["redshift"][int(r.integers(n))] = 0.05
        keep = np.ones(n, bool)
        if c["top"] is not None and i != base and cat != "GWTC-1" and n > n0 + 4:  # samples above the largest mass are left out
            keep[1:4] = False
            d["mass_1"] = np.where(keep, d["mass_1"], 1.3 * top)
            d["mass_2"] = d["mass_1"] * d["mass_ratio"]
        path, wf = scratch(f"an{i}.h5"), ["IMRPhenomPv2", "C01:Mixed"][i % 2]
        write_event(path, wf, cat, d, r)
        ev = f"GW{150000 + 11 * i * (-1) ** i}_{i}"
        meta[ev] = dict(file_path=path, waveform=wf, redshift_prior=c["zps"][i % 4], catalog=cat)
        truth[ev] = {k: v[keep] for k, v in d.items()}
    d = injections(r, NI)
    if r.random() < 0.4:  # a search that reaches less far than the events
        d["z"] = np.where(d["z"] > 0.9, 0.3 * np.minimum(d["z"], 3.0), d["z"])
    d["z"] = np.maximum(d["z"], 0.06)
    d["z"][0] = 0.05
    # drawn uniformly in spin magnitudes and mass ratio, more or less, as searches do
    d["lnp"] = -8 + 0.6 * r.standard_normal(NI) - 2 * np.log(d["a1"] * d["a2"]) - np.log(d["mass1"])
    inv = {k: thresholds(r, NI, c["ifar"], 0.2) for k in (["gstlal_far", "pycbc_far"] if c["o4"] else ["ifar_pycbc_bbh", "ifar_gstlal"])}
    inv[list(inv)[0]][0] = 3.0 * c["ifar"]
    sn = thresholds(r, NI, c["snr"], 0.2)
    run = np.array([["o1", "o2", "o3"][i] for i in r.integers(0, 3, NI)])
    total, time = int(r.integers(NI, 10**5)), float(r.uniform(0.1, 2)) * YEAR
    path = scratch("an_inj.h5")
    keep = np.any([v > c["ifar"] for v in inv.values()], axis=0)
    if c["o4"]:
        write_o4(path, d, {k: 1 / v for k, v in inv.items()}, sn, total, time, "total_analysis_time", r)
        keep |= sn > c["snr"]
    else:
        write_o3(path, d, inv, run, sn, total, time, "analysis_time_s", False, r)
        keep |= (run != "o3") & (sn > c["snr"])
    wanted = NAMES + (["mass_2"] if c["m2"] else [])
    raw = found_injections(d, keep, wanted, np.exp(d["lnp"]) / (d["w"] if c["o4"] else 1.0))
    names = [wanted[i] for i in r.permutation(len(wanted))] if c["order"] else list(wanted)
    np.random.seed(c["s"] % 2**32)
    kw = {} if c["top"] is None else dict(maximum_mass=top)
    if c["key"]:
        kw["key_file"] = scratch("an.json")
        with open(kw["key_file"], "w") as f:
            json.dump(meta, f)
    else:
        kw["catalog_metadata"] = meta
    pe = D.load_posterior_dataset(param_names=names, **kw)
    kw = dict(through_o4a=True) if c["o4"] else {}
    inj = D.load_injection_dataset(path, names, ifar_threshold=c["ifar"], snr_threshold=c["snr"], **kw)
    out = scratch("an.h5")
    if os.path.exists(out):
        os.remove(out)
    D.save_posterior_samples_and_injection_datasets_as_idata(out, pe, inj)
    gone = None if gone is None else list(meta)[gone]
    pedict, injdict, const, _ = U.load_pe_and_injections_as_dict(out, **({"ignore": [gone]} if gone else {}))
    evs = [e for e in meta if e != gone]
    require(int(const["nObs"]) == len(evs) and int(const["total_inj"]) == total, "constants of the analysis", got=const)
    close(float(const["obs_time"]), time / YEAR, "observing time", rtol=1e-6)
    # the samples are those of the files; their prior densities as a reference (normalised up to the largest redshift of the catalog)
    zmax = max(1.9, float(np.max(pe["posteriors"].sel(param="redshift").values))) * 1.01
    n = min(10000, n0)
    val = {k: arr(pedict[k], k, (len(evs), n)).astype(float) for k in wanted}
    prior = np.zeros((len(evs), n))
    N = {e: norm(zmax, e) for e in (True, False)}
    for i, e in enumerate(evs):
        t = truth[e]
        o = np.argsort(t["a_1"])
        s = t["a_1"][o]
        j = np.clip(np.searchsorted(s, val["a_1"][i]), 1, len(s) - 1)
        at = o[np.where(np.abs(s[j] - val["a_1"][i]) < np.abs(s[j - 1] - val["a_1"][i]), j, j - 1)]
        gw1 = meta[e]["catalog"] == "GWTC-1"
        if tol(True, False) or n < 1000:
            require(len(set(at.tolist())) == n, "samples of an event repeat or are not in its file", event=e)
        for k in wanted if (tol(True, False) or n < 1000) else ["a_1"]:
            close(val[k][i], t[k][at], f"{k} of {meta[e]['catalog']}", rtol=2e-4, atol=1e-5)
        z, eu = val["redshift"][i], meta[e]["redshift_prior"] == "euclidean"
        prior[i] = pz(z, eu) / N[eu] * (1 + z) ** 2 * val["mass_1"][i] / 4
    val_i = {k: arr(injdict[k], k, (keep.sum(),)).astype(float) for k in wanted}
    for k in wanted:
        close(val_i[k], raw[k], f"{k} of the injections", rtol=tol(1e-9, 1e-5), atol=1e-6)
    return pedict, injdict, const, (val, prior), (val_i, raw["prior"])


def weigh(c, f, *parameters):
    """the two sets of weights, as a likelihood computes them"""
    f = f if c["how"] == "eager" else jax.jit(f)
    return f(*parameters)


def judge(c, wts, surveyed, want, pe, inj, const, slack, NV):
    """wts: package's weights; want: reference weights"""
    (pw, iw), (rp, ri) = wts, want
    nobs, total, T = int(const["nObs"]), int(const["total_inj"]), float(const["obs_time"])
    pw, iw = arr(pw, "weights of the samples", rp.shape), arr(iw, "weights of the injections", ri.shape)
    require(np.all(np.isfinite(pw)) and np.all(np.isfinite(iw)), "weights not finite")
    if np.any(np.sum(rp > 0, axis=1) < 2) or np.sum(ri > 0) < 2:
        return None
    flags = {**dict(min_neff_cut=True, marginalize_selection=False, max_variance_cut=False), **FLAGS[c["flags"]]}
    with np.errstate(all="ignore"):
        bf, ne, var, mu, nei, _, _, tot, logl, _ = expected(np.log(rp), np.log(ri), total, nobs, flags)
        given = [J(np.log(w)) if c["log"] else J(w) for w in (pw, iw)]
    ppc = list(NAMES)
    opt = dict(surveyed_hypervolume=surveyed) if c["rate"] else dict(reconstruct_rate=False)
    _, tr = traced(c["s"] % 1000, {"unscaled_rate": J(1.7)} if c["rate"] else None, *given, total, nobs, T, posterior_predictive_check=True, param_names=ppc, pedata={k: pe[k] for k in ppc}, injdata={k: inj[k] for k in ppc},
                   log=c["log"], **opt, **FLAGS[c["flags"]])
    val = lambda k: arr(tr[k]["value"])
    at = 0.02 + slack
    close(val("logBFs"), bf, "log Bayes factors", rtol=0, atol=at)
    close(np.log(val("detection_efficiency")), mu, "log detection efficiency", rtol=0, atol=at)
    # every normalisation of the population cancels
    close(val("logBFs") - np.log(val("detection_efficiency")), bf - mu, "log Bayes factors over the detection efficiency", rtol=0, atol=0.02)
    close(val("log_nEffs"), ne, "effective samples", rtol=0, atol=0.05)
    close(val("log_nEff_inj"), nei, "effective injections", rtol=0, atol=0.05 + tol(0, 0.05))
    if c["rate"]:
        close(float(val("surveyed_hypervolume")), NV / 1e9 * T, "surveyed hypervolume", rtol=0.01)
        close(float(val("rate")), 1.7 / np.exp(mu) / (NV / 1e9 * T), "merger rate", rtol=0.02 + 2 * slack)
    # the decisions, away from their thresholds
    sharp = True
    if flags["min_neff_cut"]:
        sharp &= abs(nei - np.log(4 * nobs)) > 0.15 and abs(np.min(ne) - np.log(nobs)) > 0.1
    if flags["max_variance_cut"]:
        sharp &= abs(tot - 1) > 0.1 * (1 + tot)
    label = "undecided"
    if sharp and logl is None:
        label = "rejected"
        require(factor(tr) < -1e30, "a population without enough effective samples is not rejected", neff=np.exp(ne), ninj=np.exp(nei), variance=tot, flags=flags)
    elif sharp:
        label = "accepted"
        extra = nobs * (3 + nobs) / 2 / np.exp(nei) * 0.1 if flags["marginalize_selection"] else 0.0
        close(factor(tr), logl, "log likelihood", rtol=1e-5, atol=0.02 * nobs + extra)
    # predictive draws are whole samples of the data with weight
    for ev in range(nobs):
        for kind, d, w in (("obs", {k: np.asarray(pe[k])[ev] for k in ppc}, rp[ev]), ("pred", {k: np.asarray(inj[k]) for k in ppc}, ri)):
            ok = (d["mass_1"] >= 5.0) & (d["mass_1"] <= 100.0) & (d["mass_1"] * d["mass_ratio"] >= 3.0) & (w > 0)
            if not np.any(ok):
                continue
            hit = np.all([d[k] == float(val(f"{k}_{kind}_event_{ev}")) for k in ppc], axis=0)
            require(np.any(hit & ok), "a predictive draw is not a sample of the data with weight", kind=kind, event=ev)
    return f"{label}, {c['flags']}"


@sub(
    fdict(iid=st.booleans(), n=st.lists(st.integers(5, 12), min_size=4, max_size=4), nz=st.integers(4, 8), amp=reals(0.2, 1.2), **GEN),
    quick=24, thorough=600, modes=("x64", "f32"), split=4,
    corpus=[dict(iid=i, n=[10, 6, 8, 7], nz=6, amp=0.7, s=5 + o, nev=4, cats=["GWTC-3", "GWTC-1", "GWTC-2.1", "GWTC-3"], zps=["euclidean", "comoving"] * 2, o4=bool(o), **[PLAIN, OTHER][o], mmin=5.0, mmax=95.0, lamb=2.7, order=bool(o)) for i in (True, False) for o in (0, 1)]
    + [dict(iid=False, n=[24, 16, 12, 10], nz=12, amp=0.5, s=8, nev=7, cats=["GWTC-3", "GWTC-1", "GWTC-2.1", "GWTC-3"], zps=["euclidean", "comoving"] * 2, o4=True, **{**PLAIN, "size": "large", "ignore": "middle", "how": "jit"}, mmin=5.0, mmax=95.0, lamb=2.7, order=True)],
)
def spline_population(c):
    """B-spline masses, spins and redshift, as the set-up helpers build them"""
    r = rng(c["s"])
    pe, inj, const, (vp, prp), (vi, pri) = files(c, r)
    mmin, mmax, lam = fnum(c["mmin"]), fnum(c["mmax"]), fnum(c["lamb"])
    nm, nq, na, nt = c["n"]
    mass = U.setup_bspline_mass_models(pe, inj, nm, nq, mmin, mmax)
    kw = dict(IID=True) if c["iid"] else dict(a2_nsplines=na + 1, ct2_nsplines=nt + 2)
    mag, tilt = U.setup_bspline_spin_models(pe, inj, na, nt, **kw)
    zmod = U.setup_powerlaw_spline_redshift_model(pe, inj, c["nz"])
    G = lambda n: cast(c["amp"] * r.standard_normal(n))
    cm, cq, cz = G(nm), G(nq), G(c["nz"])
    ca, ct = ([G(na)] * 2, [G(nt)] * 2) if c["iid"] else ([G(na), G(na + 1)], [G(nt), G(nt + 2)])
    j = lambda v: [J(x) for x in (v[:1] if c["iid"] else v)]
    one = lambda p, d, l, m, q, z, a, t: mass(m, q, pe_samples=p) * mag(*a, pe_samples=p) * tilt(*t, pe_samples=p) * zmod(d["redshift"], l, z) / d["prior"]
    wts = weigh(c, lambda *v: [one(p, d, *v) for p, d in ((True, pe), (False, inj))], lam, J(cm), J(cq), J(cz), j(ca), j(ct))
    zlo, zhi = max(vp["redshift"].min(), vi["redshift"].min()), min(vp["redshift"].max(), vi["redshift"].max())
    R = dict(m=Curve("LogXLogY", nm, 4, mmin, mmax), q=Curve("LogY", nq, 4, mmin / mmax, 1.0), z=Curve("LogX", c["nz"], 4, zlo, zhi))
    A = [Curve("LogY", len(v), 4, 0.0, 1.0) for v in ca]
    T = [Curve("LogY", len(v), 4, -1.0, 1.0) for v in ct]
    fz = lambda t: REF.dVcdz(t) * (1 + t) ** (lam - 1) * np.exp(R["z"].spline(np.clip(t, zlo, zhi), cz))
    NV = quad(fz, zlo, zhi)

    def density(v):
        d = R["m"].g(v["mass_1"], cm) / R["m"].integral(cm) * R["q"].g(v["mass_ratio"], cq) / R["q"].integral(cq)
        for i in (0, 1):
            d = d * A[i].g(v[f"a_{i + 1}"], ca[i]) / A[i].integral(ca[i]) * T[i].g(v[f"cos_tilt_{i + 1}"], ct[i]) / T[i].integral(ct[i])
        return d * np.where(v["redshift"] <= zhi, fz(np.minimum(v["redshift"], zhi)), 0.0) / NV

    slack = R["m"].norm_tol(cm, 1500) + R["q"].norm_tol(cq) + sum(k.norm_tol(v) for k, v in zip(A + T, ca + ct))
    return judge(c, wts, zmod.normalization(lam, J(cz)), (density(vp) / prp, density(vi) / pri), pe, inj, const, slack, NV)


@sub(
    fdict(alpha=reals(-4.0, 1.0), beta=reals(-2.0, 4.0, special=[0.0]), mpp=reals(20.0, 50.0), sigpp=reals(2.0, 10.0), frac=reals(0.0, 1.0, special=[0.0, 0.1]), ab=st.tuples(reals(1.0, 5.0), reals(1.0, 5.0)), xi=reals(0.0, 1.0, special=[1.0]), sig=reals(0.2, 3.0), **GEN),
    quick=24, thorough=600, modes=("x64", "f32"), split=4,
    corpus=[dict(alpha=-2.3, beta=1.1, mpp=33.0, sigpp=5.0, frac=0.1, ab=[2.0, 4.0], xi=0.6, sig=0.7, s=15 + o, nev=4, cats=["GWTC-3", "GWTC-1", "GWTC-2.1", "GWTC-3"], zps=["euclidean", "comoving"] * 2, o4=bool(o), **[PLAIN, OTHER][o], mmin=5.0, mmax=95.0, lamb=2.7, order=bool(o)) for o in (0, 1)]
    + [dict(alpha=-2.3, beta=1.1, mpp=33.0, sigpp=5.0, frac=0.1, ab=[2.0, 4.0], xi=0.6, sig=0.7, s=25, nev=3, cats=["GWTC-1", "GWTC-2.1", "GWTC-3", "GWTC-3"], zps=["euclidean", "comoving"] * 2, o4=False, **{**PLAIN, "size": "capped", "ignore": "last", "how": "jit"}, mmin=5.0, mmax=95.0, lamb=2.7, order=True)],
)
def parametric_population(c):
    """power law plus peak masses, beta spin magnitudes, aligned-plus-isotropic tilts and a power law in redshift"""
    r = rng(c["s"])
    a, b = fnum(c["alpha"]), fnum(c["beta"])
    if abs(a + 1) < 0.1 or abs(b + 1) < 0.1:
        return None
    pe, inj, const, (vp, prp), (vi, pri) = files(c, r)
    mmin, mmax, lam, mp, sp, fr, xi, sg = (fnum(c[k]) for k in ("mmin", "mmax", "lamb", "mpp", "sigpp", "frac", "xi", "sig"))
    aa, bb = (fnum(v) for v in c["ab"])
    zmod = MP.PowerlawRedshiftModel(pe["redshift"], inj["redshift"])
    own = bool(c["s"] % 2)

    def one(d, a, b, lo, hi, mp, sp, fr, aa, bb, xi, sg, lam):
        p = MP.plpeak_primary_ratio_pdf(d["mass_1"], d["mass_ratio"], a, b, lo, hi, mp, sp, fr)
        if own:  # the secondary spin has a distribution of its own
            p = p * MP.independent_spin_magnitude_beta_dist(d["a_1"], d["a_2"], aa, bb, bb, aa + 0.5) * MP.independent_spin_tilt(d["cos_tilt_1"], d["cos_tilt_2"], xi, 1 - 0.5 * xi, sg, sg + 0.4)
        else:
            p = p * MP.iid_spin_magnitude(d["a_1"], d["a_2"], aa, bb) * MP.iid_spin_tilt(d["cos_tilt_1"], d["cos_tilt_2"], xi, sg)
        return p * zmod(d["redshift"], lam) / d["prior"]

    wts = weigh(c, lambda *v: [one(d, *v) for d in (pe, inj)], a, b, mmin, mmax, mp, sp, fr, aa, bb, xi, sg, lam)
    zlo, zhi = max(vp["redshift"].min(), vi["redshift"].min()), min(vp["redshift"].max(), vi["redshift"].max())
    fz = lambda t: REF.dVcdz(t) * (1 + t) ** (lam - 1)
    NV = quad(fz, zlo, zhi)

    def density(v):
        m, q = v["mass_1"], v["mass_ratio"]
        d = (1 - fr) * powerlaw_ref(m, a, mmin, mmax) + fr * truncnorm_ref(m, mp, sp, mmin, mmax)
        d = np.where((m > mmin) & (q * m >= mmin), d * powerlaw_ref(q, b, np.minimum(mmin / m, 1 - 1e-9), 1.0), 0.0)
        for i in (1, 2):
            t = v[f"cos_tilt_{i}"]
            p, q, x, s = (bb, aa + 0.5, 1 - 0.5 * xi, sg + 0.4) if own and i == 2 else (aa, bb, xi, sg)
            d = d * beta_ref(v[f"a_{i}"], p, q) * ((1 - x) / 2 + x * truncnorm_ref(t, 1.0, s, -1.0, 1.0))
        return d * np.where(v["redshift"] <= zhi, fz(v["redshift"]), 0.0) / NV

    edge = [np.abs(v["mass_1"] * v["mass_ratio"] / mmin - 1).min() < 1e-5 for v in (vp, vi)]
    if any(edge):
        return None
    return judge(c, wts, zmod.normalization(lam), (density(vp) / prp, density(vi) / pri), pe, inj, const, 5e-3, NV)
