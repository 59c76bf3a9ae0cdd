"""C10: inference options leave point estimates alone; alpha moves only interval endpoints and what is read off them."""
from ..terms import *
from ..deps import Slicer, fields_of, KEYS

INFER = {"alpha", "n_bootstrap", "seed", "bootstrap_weights", "bootstrap_weight_type", "inference", "variance_method",
         "robust", "cluster"}
REC = ["effect", "n_treated", "n_control", "n_groups", "n_periods", "weights", "gt_indices", "weight"]
DID = ["att", "coefficients", "residuals", "fitted_values", "r_squared", "n_obs", "n_treated", "n_control"]
EST = {
    "DifferenceInDifferences.fit": DID,
    "TwoWayFixedEffects.fit": DID,
    "MultiPeriodDiD.fit": ["avg_att", "coefficients", "residuals", "fitted_values", "r_squared", "n_obs", "n_treated",
                           "n_control", "pre_periods", "post_periods", "period_effects.effect", "period_effects.period"],
    "SyntheticDiD.fit": ["att", "unit_weights", "time_weights", "pre_treatment_fit", "n_obs", "n_treated", "n_control",
                         "pre_periods", "post_periods"],
    "CallawaySantAnna.fit": ["overall_att", "groups", "time_periods", "n_obs", "n_treated_units", "n_control_units",
                             "group_time_effects[*", "event_study_effects[*", "group_effects[*"],
    "SunAbraham.fit": ["overall_att", "groups", "time_periods", "n_obs", "n_treated_units", "n_control_units",
                       "cohort_weights", "cohort_effects[*", "event_study_effects[*"],
    "TripleDifference.fit": ["att", "n_obs", "n_treated_eligible", "n_treated_ineligible", "n_control_eligible",
                             "n_control_ineligible", "group_means", "pscore_stats", "r_squared", "covariate_balance"],
    "TROP.fit": ["att", "unit_effects", "time_effects", "treatment_effects", "lambda_time", "lambda_unit", "lambda_nn",
                 "factor_matrix", "effective_rank", "n_obs", "n_treated", "n_control", "n_treated_obs"],
    "HonestDiD.fit": ["lb", "ub", "M", "original_estimate", "original_se"],
    "permutation_test": ["original_effect", "n_obs"],
    "placebo_timing_test": ["placebo_effect", "n_obs"],
    "placebo_group_test": ["placebo_effect", "n_obs"],
    "leave_one_out_test": ["placebo_effect", "original_effect", "leave_one_out_effects", "n_obs"],
    "triple_difference": ["att"],
    "compute_honest_did": ["lb", "ub"],
}
# documented exception: with max_loocv_samples set, TROP's cross-validation looks at a random subsample
ALLOW = {"TROP.fit": {"seed"}}
NOALPHA = {
    "DifferenceInDifferences.fit": ["se", "t_stat", "p_value", "vcov", "bootstrap_distribution"],
    "TwoWayFixedEffects.fit": ["se", "t_stat", "p_value", "vcov", "bootstrap_distribution"],
    "MultiPeriodDiD.fit": ["avg_se", "avg_t_stat", "avg_p_value", "vcov", "period_effects.se", "period_effects.t_stat",
                           "period_effects.p_value"],
    "SyntheticDiD.fit": ["se", "t_stat", "p_value", "placebo_effects"],
    "CallawaySantAnna.fit": ["overall_se", "overall_t_stat", "overall_p_value", "group_time_effects[se", "group_time_effects[t_stat",
                             "group_time_effects[p_value", "event_study_effects[se", "event_study_effects[t_stat",
                             "event_study_effects[p_value", "group_effects[se", "group_effects[t_stat", "group_effects[p_value",
                             "bootstrap_results.overall_att_se", "bootstrap_results.overall_att_p_value",
                             "bootstrap_results.group_time_ses", "bootstrap_results.bootstrap_distribution"],
    "SunAbraham.fit": ["overall_se", "overall_t_stat", "overall_p_value", "event_study_effects[se", "event_study_effects[t_stat",
                       "event_study_effects[p_value", "cohort_effects[se", "bootstrap_results.overall_att_se",
                       "bootstrap_results.overall_att_p_value", "bootstrap_results.bootstrap_distribution"],
    "TripleDifference.fit": ["se", "t_stat", "p_value"],
    "TROP.fit": ["se", "t_stat", "p_value", "bootstrap_distribution"],
    "permutation_test": ["p_value", "se", "t_stat", "permutation_distribution"],
    "placebo_timing_test": ["p_value", "se", "t_stat"],
    "placebo_group_test": ["p_value", "se", "t_stat"],
    "leave_one_out_test": ["p_value", "se", "t_stat"],
    "wild_bootstrap_se": ["se", "p_value", "t_stat_original", "n_clusters", "n_bootstrap", "bootstrap_distribution"],
    "triple_difference": ["se", "t_stat", "p_value"],
    "simulate_power": ["mean_estimate", "std_estimate", "mean_se", "coverage", "effect_sizes", "true_effect",
                       "simulation_results[estimate", "simulation_results[se",
                       "simulation_results[p_value"],
}


def leaf(x):
    return x.op == "cfg" or x.op == "param"


def project(spec):
    if "[" in spec:
        f, k = spec.split("[")
        return f, [(q,) for q in (REC if k == "*" else [k])]
    if "." in spec:
        f, k = spec.split(".")
        return f, [("." + k,)]
    return spec, [()]


def look(c, S, n, specs, forb, what):
    r = S.res(n)
    if r is None:
        return
    fs = fields_of(r.retterm)
    if not fs:
        c.undecide("%s does not return a record the analysis can read" % n)
        return
    sl = Slicer(leaf)
    for spec in specs:
        f, projs = project(spec)
        if f not in fs:
            continue
        for p in projs:
            L = sl.leaves(fs[f], p)
            c.ob("result components", (n, f) + p)
            bad = {}
            for x, k in L.items():
                o = x.a[0].split("['")[0]
                o = o[5:] if o.startswith("self.") else o
                if o in forb and not (x.op == "cfg" and o in r.params):
                    bad.setdefault(o, k)
            for o, k in sorted(bad.items()):
                ch = sl.path(k)
                c.find("%s:%s%s:%s" % (n, f, "".join("." + q.lstrip(".") for q in p), o),
                       "%s: %s `%s%s` depends on option `%s`" % (n, what, f, "".join("." + q.lstrip(".") for q in p), o),
                       where=n, path=" <- ".join(show(x, 3)[:90] for x in ch[-1:-9:-1]))


def run(S, c):
    c.rule("Rule 1: the backward slice (data and control, records projected by field and key) of every point estimate, "
           "weight, fitted value and count a fit returns contains no inference option (alpha, n_bootstrap, seed, bootstrap "
           "weights, inference mode, variance method, robust, cluster). Rule 2: the slice of every standard error, t "
           "statistic, p-value and replicate distribution contains no alpha. Analysed in the world without the compiled backend.")
    S = S.python()
    for n, specs in EST.items():
        look(c, S, n, specs, INFER - ALLOW.get(n, set()), "point estimate")
    for n, specs in NOALPHA.items():
        look(c, S, n, specs, {"alpha"}, "quantity")
    direct(c, S)
    c.floor("result components", 110)


def direct(c, S):
    """solve_ols and LinearRegression: coefficients and residuals do not depend on variance options."""
    r = S.res("solve_ols")
    if r is not None:
        sl = Slicer(leaf)
        for i, what in ((0, "coefficients"), (1, "residuals")):
            c.ob("result components", ("solve_ols", what))
            for x, k in sl.leaves(r.retterm, ("[%d]" % i,)).items():
                if x.a[0] in ("cluster_ids", "return_vcov"):
                    c.find("solve_ols:%s:%s" % (what, x.a[0]), "solve_ols: %s depend on `%s`" % (what, x.a[0]), where="solve_ols",
                           path=" <- ".join(show(y, 3)[:90] for y in sl.path(k)[-1:-9:-1]))
    r = S.res("LinearRegression.fit")
    if r is not None:
        fs = {k: r.I.snap(v) for k, v in r.I.heap[r.selfref.loc].fields.items()}
        sl = Slicer(leaf)
        for f in ("coefficients_", "residuals_", "fitted_values_", "n_obs_", "n_params_effective_", "df_"):
            if f in fs:
                c.ob("result components", ("LinearRegression.fit", f))
                for x, k in sl.leaves(fs[f]).items():
                    if x.a[0] in ("robust", "cluster_ids", "alpha"):
                        c.find("LinearRegression:%s:%s" % (f, x.a[0]), "LinearRegression.fit: %s depends on `%s`" % (f, x.a[0]),
                               where="LinearRegression.fit", path=" <- ".join(show(y, 3)[:90] for y in sl.path(k)[-1:-9:-1]))
