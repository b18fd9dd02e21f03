"""What each property says, where it is anchored and how its cases count (source of properties.jsonl and MANIFEST.json)."""

META = {}


def prop(id, title, statement, text, why, files, mech, rule, over=("inputs",), assumptions=(), state=None, observe=None):
    META[id] = dict(title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, rule=rule, assumptions=list(assumptions), state=state, observe=observe)


COSMO, DIST, INTERP, NPD = "gwinferno/cosmology.py", "gwinferno/distributions.py", "gwinferno/interpolation.py", "gwinferno/numpyro_distributions.py"
SINGLE, SEP, SMOOTH = (f"gwinferno/models/bsplines/{f}.py" for f in ("single", "separable", "smoothing"))
PERT, PARAM = "gwinferno/models/spline_perturbation.py", "gwinferno/models/parametric/parametric.py"
ANA, PARSER, UTILS = (f"gwinferno/pipeline/{f}.py" for f in ("analysis", "parser", "utils"))
DATA, PRIORS, CONV, SEL = (f"gwinferno/preprocess/{f}.py" for f in ("data_collection", "priors", "conversions", "selection"))
CALC, PLOT = "gwinferno/postprocess/calculations.py", "gwinferno/postprocess/plot.py"

prop(
    "P01", "Distances, volumes and redshift conversions of a flat cosmology",
    "For every flat cosmology (matter fraction, optional radiation, Hubble constant) and every non-negative redshift, comoving distance, luminosity distance, comoving volume, the differential comoving volume and the redshift-to-distance Jacobian equal the standard integrals of the Hubble parameter to the accuracy of the tabulation step. "
    "Distances start at zero and grow with redshift, results have the shape of the input, and the two shipped cosmologies carry the published Planck parameters.",
    "all cosmological parameters, table steps, redshifts (scalars and arrays) up to and beyond the tabulated range, both floating point precisions",
    "the tests compare three quantities of the shipped cosmology with astropy below redshift three to one per cent; other parameters, table steps, precisions and accuracy are not sampled",
    [COSMO], [("cumulative trapezoid table of dz/E(z)", COSMO), ("interpolation of the tables", COSMO)],
    "the case evaluates at least one redshift above five table steps",
    assumptions=["the tolerance is the discretisation error of a trapezoid table with the requested step, from an independent quadrature"],
)
prop(
    "P02", "Cosmology answers do not depend on the order of questions",
    "Whatever sequence of questions (distances, volumes, inversions, beyond or inside the tabulated range) a cosmology object has answered before, each answer equals the one a fresh object gives. "
    "Converting a redshift to luminosity distance and back returns the redshift, including distances beyond the initial table, and using one cosmology object never changes the answers of another.",
    "all sequences of queries over all redshifts and distances, on fresh and shared objects",
    "the tests ask a single question per object; the automatic extension of the table, inversion beyond it and interleavings are never exercised",
    [COSMO], [("table extended on demand", COSMO), ("DL2z inverse interpolation", COSMO)],
    "the history contains at least two queries, one of which lies beyond the initial table or follows one that does", over=("histories", "inputs"),
    state=[("tabulated redshifts and distances", "grows when a query lies beyond it", COSMO)],
)
prop(
    "P03", "Truncated power-law, normal, log-normal and beta densities",
    "For all parameters the densities equal their closed forms inside the closed support, are zero (or the requested floor) outside it, and are never NaN, at scalars and arrays, eagerly and compiled. "
    "They integrate to one over the support, including the log-flat power law (index minus one) and beta shapes equal to one at the edges.",
    "all finite parameters and points, on, inside and outside the support; python, numpy and jax inputs; both precisions",
    "the tests evaluate each density at a handful of interior points with one set of parameters",
    [DIST], [("powerlaw_pdf", DIST), ("truncnorm_pdf", DIST), ("betadist", DIST)],
    "at least one evaluated point lies inside the support",
)
prop(
    "P04", "Soft truncations and the low-mass taper",
    "The logistic truncation is bounded between zero and its maximum, monotonic in the stated direction, one half at its centre, with its logarithm finite and consistent arbitrarily far from it. "
    "The low-mass taper is exactly zero below the minimum, exactly one above the window, increasing inside it and equal to the Planck taper; a softly truncated power law is the power law times its truncations.",
    "all centres, steepnesses, window widths and points, including far tails and window edges, both precisions",
    "only one point of the logistic is tested; the taper, the logarithm and far tails are not",
    [DIST], [("smooth", DIST), ("logistic_unit / log_logistic_unit", DIST), ("powerlaw_logit_pdf", DIST)],
    "points fall on both sides of the truncation or inside the taper's window",
)
prop(
    "P05", "Parametric mass and spin models are the stated densities",
    "For all parameters, the power-law, power-law-plus-peak (with or without taper) mass models and the beta-magnitude and isotropic-plus-aligned tilt models return the closed-form product or mixture of their components at each sample. "
    "They vanish outside the physical region (mass limits, mass ratio between the minimum secondary mass and one, spin ranges); untapered mass models integrate to one over mass ratio at fixed primary mass and over both masses.",
    "all parameters and samples of any shape, inside and outside the region, mixture fractions including 0 and 1, both precisions",
    "no test evaluates these models",
    [PARAM, DIST], [("mass models", PARAM), ("spin models", PARAM)],
    "the case has samples inside the region",
)
prop(
    "P06", "Samplers, densities and quantiles of the custom distributions agree",
    "For each custom distribution (sine, cosine, power law, redshift power law, broken power law, exponentiated spline, smoothing prior) and all parameters, the log density inside its support is the normalised logarithm of the stated density. "
    "Where offered, the cumulative function is its integral, the quantile function inverts it, and draws lie in the support and follow it.",
    "all parameters, bounds, points and random keys; both precisions",
    "tests evaluate default bounds at single points; normalisation for other bounds, sampling and inversion are not examined",
    [NPD], [("log_prob / cdf / icdf / sample of each distribution", NPD), ("cumtrapz", NPD)],
    "the distribution has positive width and at least one evaluated point inside it",
    assumptions=["sampling is judged by a Kolmogorov-Smirnov distance with false-alarm probability below 1e-8"],
)
prop(
    "P07", "Spline bases are the B-splines and M-splines of their knots",
    "For every number of basis functions, order, range, knot choice (default, given interior knots, given full knots) and every evaluation point, the design matrix holds the values of the corresponding B-spline or M-spline basis, with points in linear or logarithmic coordinates as the class says. "
    "Inside the range the B-spline values are non-negative and sum to one; outside the range every basis function is zero (or the log-density marker of emptiness for log-valued splines); the two-dimensional basis is the product of the one-dimensional ones in the right axis order.",
    "all numbers of splines, orders, ranges, knot vectors and points of any shape, both precisions",
    "tests build ten default splines and check their number and shapes",
    [INTERP], [("Cox-de Boor recursion", INTERP), ("knot construction", INTERP)],
    "at least one evaluated point lies inside the range",
)
prop(
    "P08", "Spline curves: values, normalisation and least-squares fits",
    "For every spline kind and coefficient vector the evaluated curve is the linear combination of the basis (exponentiated for log-valued kinds), and with normalisation on it integrates to one over the range whatever the coefficients; the coefficients handed in are not modified. "
    "Fitting coefficients to data returns the least-squares solution; the normalised two-dimensional spline integrates to one.",
    "all spline kinds, orders, knots, coefficient vectors and evaluation grids, both precisions",
    "tests evaluate a default spline with one coefficient vector and never check the integral",
    [INTERP], [("project / norm", INTERP), ("least squares fit", INTERP), ("two-dimensional normalisation", INTERP)],
    "the coefficients are not all equal",
)
prop(
    "P09", "The natural cubic spline interpolates its nodes",
    "For all strictly increasing nodes and any values, the interpolant passes through every node, is twice continuously differentiable, has zero curvature at both ends and agrees with the unique natural cubic spline between the first and the last node; results have the shape of the query and the interpolant survives compilation and differentiation.",
    "all node positions, values and query points between the first and the last node, both precisions",
    "one test evaluates one spline over part of its range",
    [INTERP], [("tridiagonal solve for the curvatures", INTERP), ("pytree registration", INTERP)],
    "at least four nodes and a query in every kind of interval",
)
prop(
    "P10", "One-dimensional spline population models evaluate their spline at each sample",
    "For every model (mass, mass ratio, spin magnitude, spin tilt, effective and precessing spin, symmetric effective spin, generic), coefficients and data set, the density at each posterior sample and each injection is the model's spline curve at that sample's value, zero outside the model's range and normalised over it where the model normalises. "
    "It does not depend on which other samples are present, on their order or grouping, or on whether a sample is passed as posterior sample or injection.",
    "all models, numbers of splines, degrees, ranges, bases, coefficients, and sample arrays inside and outside the range, both precisions",
    "tests only build the models; no evaluated density is compared with anything",
    [SINGLE, INTERP], [("design matrices precomputed for samples and injections", SINGLE), ("range masks", SINGLE)],
    "the evaluated data set has samples inside the range",
)
prop(
    "P11", "Two-parameter spline models are the product of their parts",
    "For identically distributed and independent spin magnitudes, spin tilts, effective spins and all mass combinations (spline and power law or spline in mass ratio, power law plus peak and spline, identical or independent component masses with pairing), the joint density at each sample is the product of the one-parameter densities of its own coefficients and its own samples. "
    "It is zero outside the joint support and properly normalised in each factor.",
    "all coefficients, ranges, per-component options, pairing exponents and sample arrays, both precisions",
    "no test evaluates these models with samples that distinguish the two components",
    [SEP, SINGLE], [("product of the component models", SEP), ("support masks and pairing", SEP)],
    "the joint density is non-zero for at least one sample",
)
prop(
    "P12", "Redshift models follow the comoving volume and are normalised",
    "For every evolution index or spline and every data set, the redshift density is proportional to the differential comoving volume over one plus redshift times the stated evolution at every sample and injection. "
    "It is normalised over the redshift range common to samples and injections, is zero above it in the power-law-based models, and its logarithm agrees with it.",
    "all evolution indices, spline coefficients, redshift samples and injections with different ranges, both precisions",
    "no test evaluates a redshift model",
    [PARAM, PERT, SINGLE, COSMO], [("PowerlawRedshiftModel", PARAM), ("PowerlawSplineRedshiftModel", PERT), ("BSplineRedshift", SINGLE)],
    "samples and injections span the common range",
)
prop(
    "P13", "Power laws modulated by splines in mass and mass ratio",
    "For all power-law indices, mass limits and spline coefficients, the density at each sample is proportional to the power law times the exponential of the spline (in log primary mass, and in mass ratio for the doubly modulated model), zero outside the mass limits and for unphysical mass ratios, and normalised over masses. "
    "Zero coefficients give back the unmodulated power law.",
    "all indices, limits (including narrower than the splines' range), coefficients and samples, both precisions",
    "no test evaluates these models",
    [PERT, INTERP], [("PowerlawBasisSplinePrimaryPowerlawRatio", PERT), ("PowerlawBasisSplinePrimaryRatio", PERT)],
    "the density is non-zero for at least one sample",
)
prop(
    "P14", "Smoothing priors on spline coefficients",
    "The smoothing term equals the penalty of order d differences with precision tau for every coefficient vector, and is zero for polynomials of degree below d. "
    "The ready-made mass, spin and redshift priors sample exactly the named coefficient sets with the requested sizes, prior widths and penalties, shared or independent as requested, and the ready-made models pair those coefficients with the right data.",
    "all coefficient vectors, precisions, difference orders, numbers of splines and naming options, both precisions",
    "one test evaluates constant coefficients, for which any difference penalty vanishes",
    [SMOOTH, UTILS], [("apply_difference_prior", SMOOTH), ("ready-made spline priors and models", UTILS)],
    "the coefficients are not constant, or the prior has at least one coefficient set", over=("inputs", "configurations"),
)
prop(
    "P15", "Monte Carlo estimates of evidence and detection efficiency",
    "For every array of weights (given as weights or as logarithms, including zeros and extreme magnitudes) the per-event log Bayes factor is the log mean weight, its effective sample size and variance are those of importance sampling, and the detection efficiency is the sum of weights over the number of generated injections, with its effective number and variance. "
    "The two ways of passing weights agree and results do not overflow for any number of injections.",
    "all weights, numbers of samples and of generated injections, both precisions",
    "no test calls these estimators",
    [ANA], [("per_event_log_bayes_factors", ANA), ("detection_efficiency", ANA)],
    "more than one weight",
)
prop(
    "P16", "The hierarchical likelihood is the one of the paper, with its cuts",
    "For all weights and options the log likelihood equals the sum of per-event log Bayes factors minus the number of events times the log detection efficiency, plus the selection-marginalisation term when requested. "
    "It is never NaN; samples without support, or failing the requested effective-sample-size or variance cut, are rejected with a hugely negative value and others are not; the merger rate, its prior, every reported diagnostic and the gradient agree with it.",
    "all weights, numbers of events, injections and sub-populations, cut options, random keys, both precisions",
    "no test calls the likelihood",
    [ANA], [("hierarchical_likelihood", ANA), ("cuts and selection term", ANA), ("latent sub-population assignments", ANA)],
    "the decision to keep or reject the sample is not within rounding of a threshold", over=("inputs", "configurations"),
    observe=["sampled and deterministic sites of the numpyro trace"],
)
prop(
    "P17", "Posterior predictive draws are weighted draws of real samples",
    "Each predictive draw is one existing posterior sample of that event (observed) or one existing injection (predicted), with all requested parameters taken from the same sample, inside the requested mass limits and of non-zero weight, and samples are drawn in proportion to their population weight. "
    "Requesting predictions does not change the likelihood, and reported sub-population fractions are those of the drawn sample.",
    "all catalogs, weights (linear or log), mass limits, requested parameters and random keys",
    "no test exercises the predictive check",
    [ANA], [("posterior predictive branch of the likelihood", ANA)],
    "the catalog has samples that may not be drawn, or several sub-populations",
    assumptions=["proportionality is judged with bounds of false-alarm probability below 1e-7 per group"],
)
prop(
    "P18", "A population described in a configuration file is the one evaluated",
    "For every configuration built from the supported models and priors, the parsed model has exactly the stated parameters, hyper-parameters, fixed values and priors, and the evaluated weights are the product over parameters of the stated densities divided by the sampling prior, for posterior samples and injections alike. "
    "Identically distributed parameters share one set of hyper-parameters, mixtures weight their components as stated, and parsing is repeatable.",
    "all combinations of parameters, models, fixed or sampled hyper-parameters, shared and mixture entries, with or without redshift model",
    "no test parses a configuration",
    [PARSER, ANA], [("ConfigReader", PARSER), ("construct_hierarchical_model", ANA)],
    "at least two parameters and one free hyper-parameter", over=("configurations", "inputs"),
    assumptions=["mixtures have a Dirichlet-type weight prior and components of equal support", "the redshift maximum of a configuration is a fixed value"],
)
prop(
    "P19", "The model file and command line options given are the ones used",
    "Loading a population model from a Python file returns the function of that very file, whatever files of the same or other names were loaded before, with its own helpers, and missing files or functions are reported. "
    "Each command line option takes the stated value and type (numbers as numbers, switches on or off as written), unspecified options keep their documented defaults, and options do not influence one another.",
    "all file names, directories, load sequences and combinations of options",
    "no test loads a model file or parses a command line",
    [PARSER, UTILS], [("load_model_from_python_file", PARSER), ("load_base_parser and its groups", UTILS)],
    "at least two loads, or at least one option given", over=("histories", "configurations"),
)
prop(
    "P20", "Spin and beta-distribution conversions",
    "For all component spins and mass ratios, effective and precessing spins equal their definitions, stay within their physical bounds and agree between scalar, array, numpy and jax inputs. "
    "Converting mean and variance of a beta distribution (with any maximum) to shape parameters and back returns them, the moments are those of the distribution, and inputs are never modified.",
    "all physical spins, mass ratios, means, variances and maxima; any shape and container; both precisions",
    "tests convert one set of values",
    [CONV], [("chieff_from_q_component_spins / chip_from_q_component_spins", CONV), ("mu/var <-> alpha/beta", CONV)],
    "every generated conversion counts",
)
prop(
    "P21", "Priors on effective spins implied by component-spin priors",
    "For every mass ratio and maximum spin magnitude, the densities of effective spin (isotropic and aligned) and precessing spin implied by uniform magnitudes are non-negative, finite, zero outside the physically reachable range, integrate to one and equal the density of simulated binaries. "
    "The conditional density of the precessing spin vanishes above its maximum at that effective spin and follows simulated binaries below; array inputs give the element-by-element result.",
    "all mass ratios, maximum magnitudes and effective spins, scalars and arrays",
    "tests evaluate each prior at default settings on few points",
    [PRIORS], [("piecewise closed forms", PRIORS), ("conditional density of the precessing spin", PRIORS)],
    "at least one evaluated spin is reachable",
    assumptions=["the conditional density is a kernel estimate from random draws in the code; the tolerance comes from repeated reference draws"],
)
prop(
    "P22", "Loaded posterior samples are the catalog's, with the right prior",
    "For every set of event files, each loaded sample is one sample of that event's file with all parameters kept together, no sample is used twice, every event has the same number of samples (the smallest event's, at most ten thousand), and samples above the mass limit are left out for catalogs that report source-frame masses. "
    "The attached prior density is the product of the redshift prior of that event's convention and the Jacobians of the requested parameters; unknown conventions are refused and arguments are not modified.",
    "all catalogs, event sizes, file conventions, requested parameters, mass limits and random states",
    "no test loads a catalog",
    [DATA], [("load_posterior_dataset", DATA), ("downsampling to a common number", DATA), ("prior density and Jacobians", DATA)],
    "several events, or an event that loses samples", over=("inputs", "configurations"),
    assumptions=["the redshift prior is normalised up to 1.01 times the larger of 1.9 and the largest kept redshift"],
)
prop(
    "P23", "Loaded injections are exactly the found ones, with the right density",
    "For every injection file, the loaded injections are exactly those passing the detection threshold (any search's inverse false alarm rate, or the signal-to-noise ratio where it applies), in order, with source parameters unchanged and the draw density multiplied by the Jacobians of the requested parameters (and divided by the mixture weights of later files). "
    "The number of generated injections and the analysis time in years are those of the file; requests which cannot be answered are refused.",
    "all injection files of both formats, thresholds, search pipelines, requested parameters and attribute spellings",
    "no test loads an injection file",
    [SEL, DATA], [("found-injection masks", SEL), ("density and Jacobians", SEL)],
    "some but not all injections are found", over=("inputs", "configurations"),
    assumptions=["the density of aligned-spin injection files and optional extra cuts are not judged"],
)
prop(
    "P24", "A saved data bundle is read back as it was",
    "Saving posterior samples and injections into one file and loading it returns every parameter's samples and injections under its own name, in order and unchanged, with the number of generated injections, observing time and number of events. "
    "Ignored events, and only those, are left out and not counted, reading is repeatable, and file names without the required extension are refused without writing.",
    "all parameter sets and orders, events, sizes, values and lists of ignored events",
    "no test saves or loads a bundle",
    [DATA, UTILS], [("save_posterior_samples_and_injection_datasets_as_idata", DATA), ("load_pe_and_injections_as_dict", UTILS)],
    "every round trip counts", over=("inputs", "histories"),
)
prop(
    "P25", "Data converted to effective spins keep their meaning",
    "When effective or precessing spins are requested, every posterior sample and found injection carries the value computed from its own component spins, other parameters, events and attributes are unchanged, and the attached prior density is the one in component spins with the component-spin density replaced by that of the effective spins at the sample's mass ratio.",
    "all catalogs and injection files, with and without precessing spin, any number of events and samples",
    "no test converts data to effective spins",
    [DATA, PRIORS, CONV], [("convert_component_spins_to_chieff", DATA)],
    "every converted data set counts",
    assumptions=["densities with precessing spin involve a kernel estimate from random draws; tolerances come from repeated reference draws"],
)
prop(
    "P26", "Resampled injections represent the same search",
    "Resampling injections to a population returns copies of injections of non-zero weight drawn in proportion to their weights, as many as the effective sample size, each with the population's density divided by the detection efficiency attached. "
    "The detection efficiency of that population computed from the resampled set equals the one computed from the original set, the reported effective number is that of the original set, and the given injections are not modified.",
    "all injection sets, populations (including ones vanishing on some injections), parameter orders, numbers of generated injections and keys",
    "no test resamples injections",
    [SEL], [("resample_injections", SEL)],
    "every resampled set counts",
)
prop(
    "P27", "Population curves computed from a posterior are normalised densities",
    "For every posterior draw, the computed mass, mass-ratio, spin and redshift-rate curves are finite, non-negative, proportional to the stated model's marginal density on the returned grid, and integrate to the draw's rate times its sub-population fraction (one if not given). "
    "Each draw's curve depends on that draw only, and merger-rate curves equal the local rate times the model's evolution.",
    "all posterior draws, numbers of splines, mass limits, rates and fractions, both precisions",
    "no test computes a population curve",
    [CALC], [("calculate_*_ppds and rate curves", CALC)],
    "every computed curve counts",
)
prop(
    "P28", "Posteriors and curves packed into labelled data sets unchanged",
    "Packing a posterior dictionary yields one variable per parameter with the draws on a common dimension and unchanged values, without altering the dictionary; packing population curves yields one variable per parameter and sub-population on its own grid. "
    "Redshift curves are common to all sub-populations, and data sets survive being written and read.",
    "all parameter names, shapes, numbers of draws and sub-populations, numpy and jax arrays",
    "no test packs a posterior",
    [UTILS], [("posterior_dict_to_xarray / pdf_dict_to_xarray", UTILS)],
    "every packed data set counts",
)
prop(
    "P29", "Figures show the median and 90% band and are written where asked",
    "Each plotted population curve is the median over draws at each point with the band from the 5th to the 95th percentile, labelled and coloured as requested, with every population in every figure. "
    "Figure files are written exactly when and where requested under the stated names, no figure is left open and inputs are not modified.",
    "all numbers of draws, grids, populations, labels and save options",
    "no test draws a figure",
    [PLOT], [("plot_pdf", PLOT), ("figure writers", PLOT)],
    "more than one draw, or a figure file requested",
)
prop(
    "P30", "The maximum a posteriori search finds the posterior mode",
    "For every smooth unimodal model the search converges to the maximum of the posterior density in the model's own parameters, with and without constraints, passing the model's arguments on. "
    "It performs the requested number of iterations at the requested step and the same key gives the same result.",
    "all Gaussian-type models, data, keys, iteration numbers and learning rates",
    "no test runs the search",
    [ANA], [("find_map", ANA)],
    "a converged search, or two different numbers of iterations",
)
prop(
    "P31", "Gradients of population densities are finite and correct",
    "For every population model, prior and density, the gradient with respect to population parameters (indices, mass limits, widths, fractions, taper widths, spline coefficients) is finite and equals the derivative of the returned values, whichever samples lie inside, outside or next to the edges of the support. "
    "The same holds for the whole log posterior of an analysis described by a configuration file, with respect to everything it samples. This holds eagerly and compiled, in both precisions.",
    "all models, configured analyses, parameters and sample sets that do not sit exactly on an edge moving with a parameter",
    "no test differentiates anything",
    [DIST, PARAM, PERT, SINGLE, SEP, NPD, SMOOTH, ANA], [("masked branches (jnp.where) whose hidden branch must stay finite", DIST), ("design-matrix models linear in their coefficients", SINGLE)],
    "every differentiated model counts",
    assumptions=["the derivative oracle is a central finite difference in double precision; in single precision only finiteness is required", "power-law indices are kept 0.2 away from minus one, where the formula's two branches meet"],
)
prop(
    "P32", "Whole analyses, from raw files to likelihood, evaluate the population described",
    "For every set of raw catalog files (mixed releases and prior conventions) and injections, loading, saving, reading back with events left out, building the population with the package's models and set-up helpers, and evaluating the hierarchical likelihood gives the Bayes factors, detection efficiency, surveyed hypervolume, merger rate, log likelihood and effective-sample rejection of that population under the files' own prior and draw densities. "
    "Predictive draws are whole samples of those files, and normalisations of the population cancel from the likelihood.",
    "all files, numbers of events, catalogs, prior conventions, orders of parameters, population parameters and spline numbers, both precisions",
    "no test runs more than one stage; an inconsistency between stages (units, Jacobians, order of events or parameters, posterior samples against injections) passes every test of a stage",
    [DATA, SEL, UTILS, ANA, SEP, PERT, PARAM], [("loading and prior densities", DATA), ("found injections", SEL), ("set-up helpers", UTILS), ("hierarchical likelihood", ANA)],
    "reference weights positive for at least two samples of every event and two injections",
    assumptions=["no sample or injection lies below the common redshift range of the redshift models"],
)
