"""What run.py needs to know about each property's check (no heavy imports here)."""

BOTH = ["x64", "f32"]
X64 = ["x64"]
REGISTRY = {
    "P01": dict(module="c_cosmology", modes=BOTH),
    "P02": dict(module="c_cosmo_history", modes=BOTH),
    "P03": dict(module="c_densities", modes=BOTH),
    "P04": dict(module="c_tapers", modes=BOTH),
    "P05": dict(module="c_parametric", modes=BOTH),
    "P06": dict(module="c_numpyro_dists", modes=BOTH),
    "P07": dict(module="c_spline_bases", modes=BOTH),
    "P08": dict(module="c_spline_density", modes=BOTH),
    "P09": dict(module="c_natural_spline", modes=BOTH),
    "P10": dict(module="c_models1d", modes=BOTH),
    "P11": dict(module="c_models2d", modes=BOTH),
    "P12": dict(module="c_redshift", modes=BOTH),
    "P13": dict(module="c_perturbation", modes=BOTH),
    "P14": dict(module="c_smoothing", modes=BOTH),
    "P15": dict(module="c_estimators", modes=BOTH),
    "P16": dict(module="c_likelihood", modes=BOTH),
    "P17": dict(module="c_ppc", modes=BOTH),

    "P18": dict(module="c_config", modes=BOTH),
}
REGISTRY["P19"] = dict(module="c_loading", modes=X64)
REGISTRY["P20"] = dict(module="c_conversions", modes=BOTH)
REGISTRY["P21"] = dict(module="c_spin_priors", modes=X64)
REGISTRY["P22"] = dict(module="c_catalog", modes=BOTH)
REGISTRY["P23"] = dict(module="c_injections", modes=BOTH)
REGISTRY["P24"] = dict(module="c_bundle", modes=BOTH)
REGISTRY["P25"] = dict(module="c_effspin", modes=BOTH)
REGISTRY["P26"] = dict(module="c_resample", modes=BOTH)
REGISTRY["P27"] = dict(module="c_ppd", modes=BOTH)
REGISTRY["P28"] = dict(module="c_packaging", modes=X64)
REGISTRY["P29"] = dict(module="c_plots", modes=X64)
REGISTRY["P30"] = dict(module="c_map", modes=BOTH)
REGISTRY["P31"] = dict(module="c_gradients", modes=BOTH)
REGISTRY["P32"] = dict(module="c_analysis", modes=BOTH)

from checks.meta import META  # noqa: E402

for _k, _m in META.items():
    REGISTRY[_k].update(rule=_m["rule"], assumptions=_m["assumptions"])
