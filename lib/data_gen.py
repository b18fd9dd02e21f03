"""synthetic catalog and injection files in the published formats"""

import os

import h5py
import numpy as np
from cosmo_ref import Ref

REF = Ref([0.3065, 0.0, 67.9])
P8 = ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
NEW = dict(mass_1="mass_1_source", mass_2="mass_2_source", **{k: k for k in P8[2:]})


def samples(r, n, mlo=5.0, mhi=80.0, zmax=1.8):
    q = r.uniform(0.1, 1.0, n)
    m1 = r.uniform(mlo, mhi, n)
    return dict(
        mass_1=m1, mass_2=q * m1, mass_ratio=q, redshift=r.uniform(0.05, zmax, n), a_1=r.uniform(0.01, 0.99, n), a_2=r.uniform(0.01, 0.99, n),
        cos_tilt_1=r.uniform(-0.99, 0.99, n), cos_tilt_2=r.uniform(-0.99, 0.99, n),
    )


def write_event(path, wf, catalog, d, r, decoy=None):
    """one event; fields in a random order, with others in between; a second waveform holding other numbers"""
    if catalog == "GWTC-1":
        z = d["redshift"]
        f = dict(luminosity_distance_Mpc=REF.DL(z), m1_detector_frame_Msun=d["mass_1"] * (1 + z), m2_detector_frame_Msun=d["mass_2"] * (1 + z), spin1=d["a_1"], spin2=d["a_2"], costilt1=d["cos_tilt_1"], costilt2=d["cos_tilt_2"])
        f["right_ascension"] = r.random(len(z))
    else:
        f = {NEW[k]: v for k, v in d.items()}
        f.update(mass_1=d["mass_1"] * (1 + d["redshift"]), mass_2=d["mass_2"] * (1 + d["redshift"]), luminosity_distance=REF.DL(d["redshift"]), chi_eff=r.random(len(d["a_1"])), tilt_1=np.arccos(d["cos_tilt_1"]))
    keys = [list(f)[i] for i in r.permutation(len(f))]
    rec = np.zeros(len(d["a_1"]), dtype=[(k, "f8") for k in keys])
    for k in keys:
        rec[k] = f[k]
    with h5py.File(path, "w") as h:
        for name, data in ((wf, rec), ("other_" + wf, rec[::-1] if len(rec) > 1 else rec)):
            if catalog == "GWTC-1":
                h[name] = data
            else:
                h.create_group(name)["posterior_samples"] = data


def scratch(name):
    d = os.path.join(os.environ["VERIF_SCRATCH"], "data")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, name)


# ------------------------------------------------------------------ injections

YEAR = 365.25 * 86400
TIMES = ["analysis_time", "total_analysis_time", "analysis_time_s"]


def injections(r, n, aligned=False):
    d = dict(mass1=np.where(r.random(n) < 0.8, r.uniform(5, 90, n), np.exp(r.uniform(0, np.log(300), n))))
    d["mass2"] = d["mass1"] * np.where(r.random(n) < 0.8, r.uniform(0.1, 1, n), np.where(r.random(n) < 0.2, 1.0, np.exp(r.uniform(-5, 0, n))))
    d["z"] = np.where(r.random(n) < 0.8, r.uniform(0.01, 2.0, n), np.exp(r.uniform(np.log(1e-3), np.log(8), n)))
    for i in (1, 2):
        a, t, p = r.uniform(0.05, 0.98, n), r.uniform(-0.98, 0.98, n), r.uniform(0, 2 * np.pi, n)
        a = np.where(r.random(n) < 0.8, a, np.exp(r.uniform(np.log(1e-3), 0, n)))  # some nearly without spin
        s = np.sqrt(1 - t * t)
        d[f"a{i}"], d[f"t{i}"] = (a, t) if not aligned else (np.abs(a * t), np.sign(t))
        d[f"s{i}"] = np.array([a * s * np.cos(p), a * s * np.sin(p), a * t]) if not aligned else np.array([0 * a, 0 * a, a * t])
    d["lnp"] = r.uniform(-25, -2, n)
    d["w"] = r.uniform(0.3, 3, n)
    return d


def far_values(r, n, frac=0.5):
    """inverse false alarm rates in years, about ``frac`` above 1, none close to the thresholds in use"""
    return np.where(r.random(n) < frac, np.exp(r.uniform(0.05, 8, n)), np.exp(r.uniform(-8, -0.05, n)))


def write_o3(path, d, ifars, names, snr, total, time, key, aligned, r):
    with h5py.File(path, "w") as f:
        g = f.create_group("injections")
        g["mass1_source"], g["mass2_source"], g["redshift"] = d["mass1"], d["mass2"], d["z"]
        g["mass1"] = d["mass1"] * (1 + d["z"])
        for i in (1, 2):
            for j, ax in enumerate("xyz"):
                if ax == "z" or not aligned:
                    g[f"spin{i}{ax}"] = d[f"s{i}"][j]
        g["sampling_pdf"] = np.exp(d["lnp"])
        for k, v in ifars.items():
            g[k] = v
        g["optimal_snr_net"] = snr
        if names is not None:
            g["name"] = np.array(names, dtype="S2")
        g.attrs["total_generated"] = total
        f.attrs[key] = time


def write_o4(path, d, fars, snr, total, time, key, r):
    cols = dict(mass1_source=d["mass1"], mass2_source=d["mass2"], redshift=d["z"], weights=d["w"], semianalytic_observed_phase_maximized_snr_net=snr)
    for i in (1, 2):
        for j, ax in enumerate("xyz"):
            cols[f"spin{i}{ax}"] = d[f"s{i}"][j]
    cols["lnpdraw_mass1_source_mass2_source_redshift_spin1x_spin1y_spin1z_spin2x_spin2y_spin2z"] = d["lnp"]
    cols.update(fars)
    keys = [list(cols)[i] for i in r.permutation(len(cols))]
    rec = np.zeros(len(d["z"]), dtype=[(k, "f8") for k in keys])
    for k in keys:
        rec[k] = cols[k]
    with h5py.File(path, "w") as f:
        f["events"] = rec
        f.attrs["total_generated"] = total
        f.attrs[key] = time


def thresholds(r, n, thr, frac):
    """about ``frac`` of the values above the threshold, none close to it"""
    return np.where(r.random(n) < frac, thr * (1.02 + 2 * r.random(n)), thr * (0.98 - 0.9 * r.random(n)))
