"""Writes properties.jsonl and MANIFEST.json.  Run it after editing this file."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pygmm/"


def P(pid, title, statement, over, text, why, files, mechanism, observe, technique, note, state=None, hook=None):
    return dict(
        id=pid, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
        mechanism=[dict(name=n, where=S + w) for n, w in mechanism], observe=observe, technique=technique, note=note,
        state=[dict(name=a, meaning=b, where=S + c) for a, b, c in (state or [])],
    )  # fmt: skip


NGA = ["abrahamson_silva_kamai_2014.py", "boore_stewart_seyhan_atkinson_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py", "idriss_2014.py"]
ENA = [
    "akkar_sandikkaya_bommer_2014.py", "derras_bard_cotton_2014.py", "atkinson_boore_2006.py", "campbell_2003.py",
    "pezeshk_zandieh_tavakoli_2011.py", "tavakoli_pezeshk_2005.py",
]  # fmt: skip
SUB = ["abrahamson_gregor_addo_2016.py", "coppersmith_bommer_2014.py"]
REFTEXT = "differential property-based testing against an independent reference implementation (Hypothesis, shrunk to a replay)"
META = "metamorphic property-based testing (Hypothesis, shrunk to a replay)"
MODELBASED = "stateful model-based property-based testing (Hypothesis, shrunk to a replay)"
TRUST = " Trusts the reference models and frozen tables of vp/ref; explored by random search, so a rare condition that no hinge or class of the generators touches can be missed."

PROPS = [
    P(
        "C01",
        "Medians of the NGA-West2 models are the published ones",
        "For every scenario it accepts, each NGA-West2 model (ASK14, BSSA14, CB14, CY14, I14) reports at every tabulated period, and for PGA and PGV, the median of its publication: the source, path, hanging-wall, aftershock, style-of-faulting, depth, dip, regional attenuation and linear and nonlinear site and basin terms included. "
        "This holds for every magnitude, distance, site velocity, fault geometry, mechanism and region, with every combination of optional parameters given or omitted, and also outside of the recommended limits.",
        ["inputs"],
        "all scenarios: continuous parameters including the hinge points of every term, every combination of categories, flags and omitted values",
        "The tests compare some hundred spreadsheet scenarios per model that never combine most regions, hanging-wall geometries, aftershock flags, omitted values and hinge points; the property ranges over all of them, and over all periods.",
        NGA + ["model.py"],
        [("calculation of each median", f + ":_calc_ln_resp") for f in NGA[:4]] + [("calculation of the I14 median", NGA[4] + ":__init__"), ("coefficient tables", "data/*.csv")],
        ["spec_accels, pga, pgv and periods of a model built from a scenario"],
        REFTEXT,
        "Random scenarios biased to hinge points, every period compared to 1e-8 in natural log." + TRUST,
    ),
    P(
        "C02",
        "Aleatory variability of the NGA-West2 models is the published one",
        "For every scenario it accepts, each NGA-West2 model reports at every tabulated period, and for PGA and PGV, the positive total natural-log standard deviation of its publication, composed of between-event and within-event parts with their dependence on magnitude, distance, region, site velocity, source of the velocity and nonlinear site response.",
        ["inputs"],
        "all scenarios, as for the medians, with the nonlinear site range (strong reference motion on soft sites) in particular",
        "The standard deviation depends on the reference-site motion of the same scenario through a derivative that vanishes for most tested scenarios; a handful of samples does not visit its branches.",
        NGA + ["model.py"],
        [("calculation of each standard deviation", f + ":_calc_ln_std") for f in NGA],
        ["ln_stds, ln_std_pga and ln_std_pgv of a model built from a scenario"],
        REFTEXT,
        "Random scenarios biased to hinge points, every period compared to 1e-8." + TRUST,
    ),
    P(
        "C03",
        "European and eastern North American models are the published ones",
        "For every scenario it accepts, each of the ASB14, DBC14, AB06, C03, Pea11 and TP05 models reports the median and the natural-log standard deviation of its publication at every tabulated period and for every peak measure it offers (PGA in g, PGV in cm/s, PGD in cm). "
        "ASB14 uses the coefficients of the distance metric that was given, and AB06 those of its site class and stress drop.",
        ["inputs"],
        "all scenarios: magnitudes, distances, velocities, mechanisms and choices of the distance metric",
        "AB06, C03, Pea11 and TP05 have no numerical tests at all; ASB14 and DBC14 have a few spreadsheet rows.",
        ENA + ["model.py"],
        [("functional form and coefficients", f + ":__init__") for f in ENA] + [("shared AB06 evaluation", "atkinson_boore_2006.py:_calc_ln_resp"), ("scaling of PGV and PGD to cm", "model.py:pgv")],
        ["spec_accels, ln_stds, pga, pgv, pgd and their standard deviations"],
        REFTEXT,
        "Random scenarios biased to hinge points (distances of 70, 130 and 140 km, magnitude breaks, site classes), every period compared to 1e-8." + TRUST,
    ),
    P(
        "C04",
        "Subduction models are the published ones, with their adjustments",
        "For every interface or intraslab scenario, tectonic setting, adjustment of the large-magnitude break (scalar or by period), of the near-source saturation and of the attenuation, the BC Hydro (AGA16) and PNNL (PNNL14) models report the published median and standard deviation at every tabulated period and for PGA, using rupture distance for interface events and hypocentral distance and depth for intraslab events. "
        "The adjustments in use are reported by the model.",
        ["inputs", "configurations"],
        "all scenarios and all values of the adjustment arguments",
        "The tests use the default adjustments for a few grid points; adjustments, back-arc attenuation, depth caps and the velocity cap are hardly combined.",
        SUB,
        [("median", SUB[0] + ":_calc_ln_resp"), ("adjustment of c1", SUB[0] + ":__init__"), ("PNNL terms", SUB[1] + ":_calc_ln_resp")],
        ["spec_accels, ln_stds, pga, ln_std_pga, adjust_c1, adjust_c4, scale_atten"],
        REFTEXT,
        "Random scenarios and adjustments, every period compared to 1e-8." + TRUST,
    ),
    P(
        "C05",
        "The vertical-to-horizontal ratio is the published one",
        "For every accepted scenario the GA11 model reports the published vertical-to-horizontal ratio and its natural-log standard deviation at every tabulated period, and its interpolations are linear in the logarithm of the period, of the log ratio and of the log standard deviation itself respectively.",
        ["inputs"],
        "all scenarios and all interpolation periods, inside and outside of the table",
        "The tests compare a few scenarios at tabulated periods only; interpolation and the velocity cap at each period are not tested.",
        ["gulerce_abrahamson_2011.py"],
        [("ratio", "gulerce_abrahamson_2011.py:_calc_ln_ratio"), ("standard deviation", "gulerce_abrahamson_2011.py:_calc_ln_std")],
        ["ratio, ln_std, interp_ratio and interp_ln_std"],
        REFTEXT,
        "Random scenarios and lists of periods." + TRUST,
    ),
    P(
        "C06",
        "Fourier amplitude spectra are the published ones at all frequencies",
        "For every accepted scenario the BA19 model reports at each of its frequencies the published median effective amplitude spectrum, with its nonlinear site response relative to the 1000 m/s reference and its kappa extrapolation at high frequencies, and the published standard deviation interpolated over magnitude.",
        ["inputs"],
        "all scenarios at all frequencies of the model",
        "The tests compare few scenarios with plotted values; basin depth, normal faulting, high-frequency extrapolation and magnitude interpolation vary over all inputs.",
        ["bayless_abrahamson_2019.py"],
        [("median", "bayless_abrahamson_2019.py:_calc_ln_eas"), ("nonlinear site", "bayless_abrahamson_2019.py:_calc_site_response"), ("standard deviation", "bayless_abrahamson_2019.py:_calc_ln_std")],
        ["freqs, eas, ln_eas, ln_std"],
        REFTEXT,
        "Random scenarios compared at all 301 frequencies." + TRUST,
    ),
    P(
        "C07",
        "Crustal duration models are the published ones",
        "For every accepted scenario the AS96, KS06 and AS16 models report the published median significant durations, named by the interval of Arias intensity, and their published standard errors, and the AS96 interpolation gives the duration to any normalized Arias intensity from 0.10 to 0.95, with the requested numbers of standard deviations, and nothing outside. "
        "The AS16 durations do not decrease with rupture distance.",
        ["inputs"],
        "all scenarios, all Arias intensities and numbers of standard deviations",
        "The tests read a handful of values off plots, with wide tolerances.",
        ["abrahamson_silva_1996.py", "kempton_stewart_2006.py", "afshari_stewart_2016.py"],
        [("AS96 durations", "abrahamson_silva_1996.py:interp"), ("KS06 durations", "kempton_stewart_2006.py:__init__"), ("AS16 durations", "afshari_stewart_2016.py:__init__")],
        ["duration, std_err, interp"],
        REFTEXT,
        "Random scenarios and intensities; order law over pairs of distances." + TRUST,
    ),
    P(
        "C08",
        "Energy-threshold duration models are the published ones",
        "For every accepted scenario and every normalized-energy threshold that the PR23 and PR24 models support, the median duration and its bounds at one standard deviation are those of the publication with the coefficients of the nearest tabulated threshold, by region and event type; unsupported thresholds, measures, regions and combinations raise an error. "
        "The vectorized PR24 function gives for each element the value of the model for that element.",
        ["inputs", "configurations"],
        "all scenarios, thresholds, regions, event types, and arrays of them",
        "The tests check orders of magnitude and a few consistency relations; the transformation of the variability and the interpolation are not sampled.",
        ["pinilla_ramos_et_al_2023.py", "pinilla_ramos_et_al_2024.py"],
        [("PR23 duration", "pinilla_ramos_et_al_2023.py:_calc_duration"), ("PR24 duration", "pinilla_ramos_et_al_2024.py:_calc_duration"), ("vectorized function", "pinilla_ramos_et_al_2024.py:duration_model")],
        ["duration, duration_plus_sigma, duration_minus_sigma, duration_for_energy, d575_median, d575_sigma, d5x_median, d5x_sigma, duration_model"],
        REFTEXT,
        "Random scenarios and thresholds away from ties of the nearest table entry." + TRUST,
    ),
    P(
        "C09",
        "Correlations of spectral accelerations and the conditional mean are consistent",
        "For all periods from 0.01 to 10 s the BJ08 correlation is the published one, symmetric, one for equal periods, and between -1 and 1. "
        "The mean spectrum conditioned on one period passes through the conditioning value there, and elsewhere has the median plus the correlated share of the deviation, with the standard deviation reduced accordingly; it is the plain median if the conditioning value is the median.",
        ["inputs"],
        "all periods and conditioning periods, all median spectra, standard deviations and conditioning values",
        "The tests compare one matrix and one spectrum.",
        ["baker_jayaram_2008.py"],
        [("correlation", "baker_jayaram_2008.py:calc_correls"), ("conditional spectrum", "baker_jayaram_2008.py:calc_cond_mean_spectrum")],
        ["calc_correls and calc_cond_mean_spectrum"],
        "property-based testing against a reference and algebraic invariants (Hypothesis, shrunk to a replay)",
        "Random periods biased to the breaks of the formula; matrices of them.",
    ),
    P(
        "C10",
        "The spectrum conditioned on several periods is the conditional Gaussian",
        "For every increasing list of periods and every non-empty choice of conditioned ones, the vector conditional mean spectrum and covariance are those of the multivariate normal distribution with the published correlations: they pass through the conditioned values with no remaining variance, agree with the single-period solution if one is conditioned, do not depend on unconditioned periods that are left out, and the covariance is symmetric with no negative variance. "
        "Unordered periods are rejected.",
        ["inputs"],
        "all period lists, masks of conditioned periods, medians, deviations and conditioning values",
        "The tests hold one example; the partition of the matrix by a mask must hold for every mask.",
        ["kishida_2017.py", "baker_jayaram_2008.py"],
        [("conditioning on the masked values", "kishida_2017.py:calc_cond_mean_spectrum_vector")],
        ["calc_cond_mean_spectrum_vector"],
        "property-based testing against a reference and metamorphic relations (Hypothesis, shrunk to a replay)",
        "Random spectra and masks up to 14 periods; ill-conditioned matrices (close periods) are excluded.",
    ),
    P(
        "C11",
        "Inter-frequency correlation models are published, valid and order-free",
        "For every list of frequencies the BA18 and Stafford (2017) correlation and covariance matrices are the published ones: symmetric, with ones (the variances) on the diagonal, correlations between -1 and 1, standard deviations given by the user kept where given and those of the model elsewhere, and reordering or leaving out frequencies reorders or leaves out rows and columns and nothing else.",
        ["inputs"],
        "all frequency lists in any order, standard deviations given or omitted in any combination, magnitudes",
        "The tests compare one matrix per model at a fixed magnitude.",
        ["bayless_abrahamson_2018.py", "stafford_2017.py"],
        [("BA18 correlation", "bayless_abrahamson_2018.py:corr"), ("BA18 covariance", "bayless_abrahamson_2018.py:cov"), ("Stafford correlations and variances", "stafford_2017.py:cov")],
        ["corr and cov of BA18; cor, cov and the component functions of Stafford (2017)"],
        "differential and metamorphic property-based testing (Hypothesis, shrunk to a replay)",
        "Random frequencies over the range of the models." + TRUST,
    ),
    P(
        "C12",
        "Parameters are checked, defaulted and reported as declared",
        "A missing required parameter raises an error that names it; a number outside of the recommended limits gives exactly one warning that names the parameter and the limit, and is used as given, while one on or inside the limits gives none; a value that is not an option of a category gives a warning that lists the options, and the default is used. "
        "Magnitudes outside of the range of the mechanism are reported where a model declares one, and the scenario reported by the model tells the value in use of every parameter.",
        ["inputs", "configurations"],
        "all parameters of all models, values on, just inside and just outside of each limit, any other value for a category",
        "The tests check a few values of one or two parameter objects; the property is about every parameter of every model at each side of each limit.",
        ["model.py"] + NGA + ENA,
        [("numeric check", "model.py:NumericParameter.check"), ("category check", "model.py:CategoricalParameter.check"), ("checks of a model", "model.py:_check_inputs")],
        ["warnings, log records and exceptions of a model built from a scenario; the scenario of the model"],
        "property-based testing against the declared parameters (Hypothesis, shrunk to a replay)",
        "Values at relative distances of 1e-9 to 0.02 of each limit; limits, options and defaults were frozen from the pinned commit.",
    ),
    P(
        "C13",
        "A model depends on its scenario alone, whatever happened before or besides",
        "What a model reports is a function of the scenario it was built from: building other models, failed constructions, threads, copies, pickles, reading results in any order, modifying results that were handed out or modifying the scenario of the caller change nothing for any model built before or after, and neither scenarios nor arrays of the caller are modified. "
        "The functions of arrays (correlations, covariances, conditional spectra, interpolations, PR24 durations) likewise depend on the values they are given alone, and the state of the process (NumPy error handling, warning filters, random numbers, logging) stays as it was. All of it, rejections included, is the same in processes of every kind (folder, locale, environment, hash seed, optimised interpreter, fork).",
        ["histories", "schedules", "inputs"],
        "all histories of constructions, reads, modifications, failures and copies over related scenarios, concurrent constructions in threads, and processes of every kind",
        "The tests build each model once from a fresh scenario; class-level tables shared by all instances make leaks between instances possible only in sequences.",
        ["model.py"] + NGA + ENA + SUB + ["bayless_abrahamson_2019.py", "gulerce_abrahamson_2011.py", "baker_jayaram_2008.py", "kishida_2017.py", "bayless_abrahamson_2018.py", "stafford_2017.py"],
        [("scenario of the model is a selection copied from the caller's", "model.py:Model.__init__"), ("coefficients are shared by class", "model.py:load_data_file")],
        ["every result of every model, compared with a first evaluation and with the reference"],
        MODELBASED,
        "Histories of up to 14 operations over up to 4 related scenarios, or of up to 150 models; processes are started with -O, -OO, other locales, folders and hash seeds; threads are scheduled by the interpreter at a small switch interval, not exhaustively." + TRUST,
        state=[("coefficient tables", "arrays shared by all instances of a model", "*.py:COEFF")],
    ),
    P(
        "C14",
        "Interpolation of spectra is the stated one for every period and kind",
        "For every model of spectra, interpolated spectral accelerations and standard deviations equal the reported values at the tabulated periods, follow the requested kind of interpolation over the logarithm of the period in between (on the logarithm of the acceleration), are undefined outside of the tabulated range, and each requested period is treated on its own, in any order and any shape.",
        ["inputs"],
        "all models and scenarios, lists of periods inside, at and outside of the table, and kinds of interpolation",
        "The tests interpolate one model at a few periods.",
        ["model.py"],
        [("interpolation", "model.py:interp_ln_spec_accels"), ("standard deviations", "model.py:interp_ln_stds")],
        ["interp_spec_accels, interp_ln_spec_accels and interp_ln_stds"],
        "property-based testing against a reference interpolation (Hypothesis, shrunk to a replay)",
        "Random periods of all kinds, away from the ties of nearest and step interpolation.",
    ),
    P(
        "C15",
        "Every model offers finite, positive and mutually consistent measures",
        "Every exported model can be built for every scenario within its recommended limits and reports one finite positive median and standard deviation for each of its tabulated increasing periods or frequencies and for each peak measure it offers, consistent with each other and in the documented units; a measure that a model does not offer raises an error. "
        "Each model has its documented name.",
        ["inputs", "configurations"],
        "all models, all scenarios within the limits",
        "The tests build each model for a few scenarios and never ask for measures that some models do not have.",
        ["model.py", "__init__.py"] + NGA + ENA + SUB + ["abrahamson_bhasin_2020.py"],
        [("measures", "model.py:GroundMotionModel"), ("list of models", "__init__.py:models")],
        ["periods, spec_accels, ln_stds, pga, pgv, pgd and their standard deviations; names"],
        "property-based testing of invariants (Hypothesis, shrunk to a replay)",
        "Random scenarios within the limits. One known finding: the AB20 model cannot be built.",
    ),
    P(
        "C16",
        "A scenario behaves as a mapping with attributes through every history",
        "Through every sequence of item assignments, updates, deletions, copies, copies with changes, pickles and rejected requests, a scenario holds the same keys and values as a plain dictionary with the same history, attributes and items agree, absent parameters have no attribute, copies are independent of the original, and keys that are not documented are rejected by the constructor and by copies with changes, naming the key. Every scenario can be displayed, whatever it holds. "
        "Coefficient sets behave as read-only mappings with attributes in the same way.",
        ["histories", "inputs"],
        "all sequences of operations over all documented keys and values, and any other key",
        "The tests set and copy one scenario once.",
        ["model.py"],
        [("attribute access", "model.py:Scenario.__getattr__"), ("copy with changes", "model.py:Scenario.copy_with"), ("known keys", "model.py:Scenario._check_keys")],
        ["every operation of the mapping, attributes, copies, equality and representation"],
        MODELBASED,
        "Histories of up to 16 operations over all live copies.",
        state=[("parameters", "key and value pairs of a scenario", "model.py:Scenario")],
    ),
    P(
        "C17",
        "Results have no steps but the published ones",
        "Where a continuous parameter (magnitude, a distance, velocity, depth, dip, width) changes by a vanishing amount, every median, standard deviation and duration of every model changes by a vanishing amount, except at the steps that the publications have. "
        "This holds at all hinge points of all piecewise terms.",
        ["inputs"],
        "all scenarios and all segments of one parameter",
        "Tests sample isolated points and cannot see what happens between them.",
        NGA + ENA + SUB + ["gulerce_abrahamson_2011.py", "bayless_abrahamson_2019.py", "afshari_stewart_2016.py", "pinilla_ramos_et_al_2023.py", "pinilla_ramos_et_al_2024.py"],
        [("piecewise terms", f + ":_calc_ln_resp") for f in NGA[:4]],
        ["all results along a segment of one parameter"],
        "property-based search with bisection for discontinuities (Hypothesis, shrunk to a replay)",
        "Segments of 16 intervals with bisection of the two most suspicious; steps within the rounding of coefficients are tolerated per model. One known finding (TP05 standard deviation at 0.5 s).",
    ),
    P(
        "C18",
        "Omitted parameters are estimated, reported, and reproducible",
        "A parameter that is omitted, or given as nothing, is replaced by the published estimate or default, which the model reports in its scenario; giving some or all of the reported values explicitly gives identical results, and values that are given are never replaced. "
        "The generic basin depth of the site is the same as no depth, and the rupture estimated by CB14 lies within the crust with its hypocentre inside.",
        ["inputs", "configurations"],
        "all scenarios and all subsets of the optional parameters",
        "The tests give all or none of the optional parameters; the number of subsets is exponential.",
        ["model.py"] + NGA[:4] + ["afshari_stewart_2016.py", "bayless_abrahamson_2019.py"],
        [("estimates of CB14", "campbell_bozorgnia_2014.py:_check_inputs"), ("estimates of CY14", "chiou_youngs_2014.py:_check_inputs"), ("estimates of ASK14", "abrahamson_silva_kamai_2014.py:_check_inputs")],
        ["the scenario of a model, and the results of a model built from it"],
        "metamorphic and differential property-based testing (Hypothesis, shrunk to a replay)",
        "Random subsets of the optional parameters of every model." + TRUST,
    ),
    P(
        "C19",
        "Public site terms and estimators are the published ones",
        "The site terms of ASK14, BSSA14, CB14 and CY14 that can be called on their own give, for every reference motion, velocity, basin depth and region, the published site amplification, and added to the results at the reference site they give the results of the model at the site. "
        "The public estimators of basin depth, depth to the top and bottom of rupture, hypocentral depth and rupture width are the published ones for all arguments and defaults; softer sites are deeper, larger earthquakes are not deeper and not narrower.",
        ["inputs"],
        "all reference motions, velocities, depths, regions, magnitudes, dips and mechanisms",
        "The estimators and site terms are tested only through a few scenarios of the models that use them.",
        NGA[:4] + ["afshari_stewart_2016.py", "bayless_abrahamson_2019.py"],
        [("site term", f + ":calc_site_term") for f in NGA[:4]] + [("generic depth", "chiou_youngs_2014.py:calc_depth_1_0")],
        ["calc_site_term, calc_depth_1_0, calc_depth_2_5, calc_depth_tor, calc_depth_bor, calc_depth_hyp, calc_width"],
        REFTEXT,
        "Random arguments, positional and by name." + TRUST,
    ),
    P(
        "C20",
        "Only the parameters that matter influence the results",
        "Results do not depend on how the scenario was assembled nor on parameters that the model does not use, and a parameter that the publication does not use under the given conditions (fault geometry away from the hanging wall, aftershock distance of main shocks, unused distance metrics, source of the velocity for medians, and so on) has no influence. "
        "Categories that the publication treats alike give the same results.",
        ["inputs", "configurations"],
        "all scenarios with all sets of additional parameters, and all values of the parameters without influence",
        "Absence of influence is a statement about all values; the tests do not vary unused parameters at all.",
        ["model.py"] + NGA + ENA + SUB,
        [("selection of the used parameters", "model.py:Model.__init__"), ("conditions of the terms", "abrahamson_silva_kamai_2014.py:_calc_ln_resp")],
        ["all results of two models built from related scenarios"],
        META,
        "Rules by model listed in vp/laws/c20.py, each with generated scenarios and values.",
    ),
    P(
        "C21",
        "The HKR14 model reports the stored prediction of the nearest event",
        "For every table of stored events, the HKR14 model reports for a scenario the medians and standard deviations of the stored event that is nearest in magnitude, depth, mechanism, distance and velocity, for PGV, PGA and every period, with a depth of 15 km if none is given, and for every scenario of a sequence on its own.",
        ["inputs", "histories"],
        "all tables of stored events and all sequences of scenarios",
        "The data file is not in the repository, so the tests of this model cannot run.",
        ["hermkes_kuehn_riggelsen_2014.py", "model.py"],
        [("nearest stored event", "hermkes_kuehn_riggelsen_2014.py:__init__")],
        ["pgv, pga, spec_accels and their standard deviations"],
        "differential property-based testing against a linear search with generated data files (Hypothesis, shrunk to a replay)",
        "Tables of 2 to 12 events in a scratch copy of the package.",
        state=[("interpolator", "stored events, loaded once", "hermkes_kuehn_riggelsen_2014.py:INTERPOLATOR")],
    ),
    P(
        "C22",
        "Numbers of any type give the same results",
        "Every scenario gives in every model the same results as the one of the same numbers as Python floats, whether its numbers are Python or NumPy integers of any size, signed or unsigned, or floating-point numbers of 16 to 64 bits, in any mix. Flags may be Python or NumPy booleans or zero and one, and categories Python or NumPy strings. Lists and arrays of whole periods, frequencies and spectral values give the same interpolations, conditional spectra, correlations and covariances as floating-point ones.",
        ["inputs", "configurations"],
        "all models and functions of lists, scenarios of whole numbers or fractions, and mixes of number types",
        "The tests use whatever type the test data has; wrap-around and integer division show only for certain values of certain types.",
        ["model.py"] + NGA + ENA + SUB,
        [("conversion of numbers", "model.py:NumericParameter.check"), ("powers of the velocity", "chiou_youngs_2014.py:calc_depth_1_0")],
        ["all results of two models built from the same numbers of different types"],
        META,
        "Random scenarios, three quarters of them rounded to whole numbers; arrays of whole numbers of 32 or 64 bits.",
    ),
]


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fp:
        for p in PROPS:
            anchors = dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None)
            if p["state"]:
                anchors["state"] = p["state"]
            d = dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=anchors,
            )  # fmt: skip
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, p["id"]
            fp.write(json.dumps(d) + "\n")
    checks = [
        dict(
            property=p["id"], quick_cmd="./check.sh %s" % p["id"], thorough_cmd="./check.sh %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"],
        )  # fmt: skip
        for p in PROPS
    ]
    manifest = dict(
        version=1,
        setup_cmd="./setup.sh",
        checks=checks,
        not_applicable=[],
        notes="No hooks: everything is observed through the public API. VERIF_SEED drives every random choice; a replay file is run again with ./check.sh <ID> --replay FILE.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fp:
        json.dump(manifest, fp, indent=1)
        fp.write("\n")


main()
