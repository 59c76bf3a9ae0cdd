"""C11: every option and argument reaches the quantities it governs; none is silently ignored."""
from ..terms import *
from ..entry import analyze
from ..deps import Slicer, fields_of
from .c10 import leaf, project

A, W = {"inference": "analytical"}, {"inference": "wild_bootstrap"}
DIDFIT = {"outcome", "treatment", "time", "covariates", "fixed_effects", "absorb", "data"}
SPEC = [
    # entry, options fixed, {component: names that must reach it}
    ("DifferenceInDifferences.fit", A, {"att": DIDFIT | {"formula"}, "se": DIDFIT | {"robust", "cluster"}, "conf_int": {"alpha", "robust", "cluster"},
                                        "t_stat": {"robust", "cluster"}, "p_value": {"robust", "cluster"}, "alpha": {"alpha"}, "n_obs": {"data"}}),
    ("DifferenceInDifferences.fit", W, {"se": {"seed", "n_bootstrap", "bootstrap_weights", "cluster"}, "p_value": {"seed", "n_bootstrap", "bootstrap_weights", "cluster"},
                                        "conf_int": {"alpha", "seed", "n_bootstrap", "bootstrap_weights", "cluster"}, "n_bootstrap": {"n_bootstrap"}}),
    ("TwoWayFixedEffects.fit", A, {"att": {"data", "outcome", "treatment", "time", "unit", "covariates"}, "se": {"cluster", "unit"},
                                   "conf_int": {"alpha", "cluster"}, "t_stat": {"cluster"}, "p_value": {"cluster"}, "alpha": {"alpha"}}),
    ("TwoWayFixedEffects.fit", W, {"se": {"seed", "n_bootstrap", "bootstrap_weights", "cluster"}, "p_value": {"seed", "n_bootstrap", "bootstrap_weights", "cluster"},
                                   "conf_int": {"alpha", "seed", "n_bootstrap", "bootstrap_weights", "cluster"}}),
    ("MultiPeriodDiD.fit", A, {"period_effects.effect": DIDFIT | {"post_periods", "reference_period"}, "period_effects.se": {"robust", "cluster"},
                               "period_effects.conf_int": {"alpha"}, "avg_att": DIDFIT | {"post_periods"}, "avg_se": {"robust", "cluster"},
                               "avg_conf_int": {"alpha", "robust", "cluster"}, "alpha": {"alpha"}}),
    ("SyntheticDiD.fit", {"variance_method": "bootstrap"}, {
        "att": {"data", "outcome", "treatment", "unit", "time", "post_periods", "covariates", "lambda_reg", "zeta"},
        "se": {"seed", "n_bootstrap", "lambda_reg", "zeta"}, "conf_int": {"alpha", "seed", "n_bootstrap"}, "unit_weights": {"lambda_reg", "outcome", "covariates"},
        "time_weights": {"zeta", "outcome", "covariates"}, "p_value": {"seed", "n_bootstrap"}}),
    ("SyntheticDiD.fit", {"variance_method": "placebo"}, {"se": {"seed", "n_bootstrap", "lambda_reg", "zeta"}, "conf_int": {"alpha", "seed"}, "p_value": {"seed"}}),
    ("CallawaySantAnna.fit", {}, {
        "group_time_effects[effect": {"data", "outcome", "unit", "time", "first_treat", "covariates", "control_group", "anticipation", "estimation_method", "base_period"},
        "overall_att": {"data", "outcome", "unit", "time", "first_treat", "covariates", "control_group", "anticipation", "estimation_method"},
        "group_time_effects[se": {"n_bootstrap", "seed", "bootstrap_weights"}, "overall_se": {"n_bootstrap", "seed", "bootstrap_weights", "cluster"},
        "overall_conf_int": {"alpha", "n_bootstrap", "seed", "bootstrap_weights"}, "overall_p_value": {"n_bootstrap", "seed", "bootstrap_weights"},
        "group_time_effects[conf_int": {"alpha", "n_bootstrap", "seed"},
        "event_study_effects[effect": {"outcome", "covariates", "control_group", "anticipation", "estimation_method", "base_period", "balance_e"},
        "event_study_effects[conf_int": {"alpha", "n_bootstrap", "seed"}, "group_effects[effect": {"outcome", "covariates", "control_group", "estimation_method"},
        "group_effects[conf_int": {"alpha", "n_bootstrap", "seed"}, "event_study_effects": {"aggregate"}, "group_effects": {"aggregate"}}),
    ("SunAbraham.fit", {}, {
        "event_study_effects[effect": {"data", "outcome", "unit", "time", "first_treat", "covariates", "control_group", "anticipation"},
        "overall_att": {"data", "outcome", "unit", "time", "first_treat", "covariates", "control_group", "anticipation"},
        "overall_se": {"cluster", "n_bootstrap", "seed"}, "event_study_effects[se": {"cluster", "n_bootstrap", "seed"},
        "overall_conf_int": {"alpha", "cluster", "n_bootstrap", "seed"}, "event_study_effects[conf_int": {"alpha", "cluster", "n_bootstrap", "seed"},
        "overall_p_value": {"cluster", "n_bootstrap", "seed"}}),
    ("TripleDifference.fit", {"estimation_method": "reg"}, {"att": {"data", "outcome", "group", "partition", "time", "covariates"}, "se": {"robust", "cluster"}, "conf_int": {"alpha", "robust"}}),
    ("TripleDifference.fit", {"estimation_method": "ipw"}, {"att": {"outcome", "group", "partition", "time", "covariates", "pscore_trim"}, "se": {"covariates", "pscore_trim"}, "conf_int": {"alpha"}}),
    ("TripleDifference.fit", {"estimation_method": "dr"}, {"att": {"outcome", "group", "partition", "time", "covariates", "pscore_trim"}, "conf_int": {"alpha"}}),
    ("TROP.fit", {"method": "twostep", "variance_method": "bootstrap"}, {
        "att": {"data", "outcome", "treatment", "unit", "time", "lambda_time_grid", "lambda_unit_grid", "lambda_nn_grid", "max_iter", "tol", "max_loocv_samples"},
        "se": {"n_bootstrap", "seed"}, "conf_int": {"alpha", "n_bootstrap", "seed"}, "p_value": {"n_bootstrap", "seed"}}),
    ("TROP.fit", {"method": "joint", "variance_method": "bootstrap"}, {
        "att": {"outcome", "treatment", "unit", "time", "lambda_time_grid", "lambda_unit_grid", "lambda_nn_grid", "max_iter", "tol", "max_loocv_samples"},
        "se": {"n_bootstrap", "seed"}, "conf_int": {"alpha", "n_bootstrap", "seed"}}),
    ("BaconDecomposition.fit", {}, {"twfe_estimate": {"data", "outcome", "unit", "time", "first_treat"}}),
    ("HonestDiD.fit", {"method": "smoothness"}, {"lb": {"M", "l_vec", "results"}, "ub": {"M", "l_vec", "results"}, "ci_lb": {"alpha", "M", "l_vec"}, "ci_ub": {"alpha", "M", "l_vec"}}),
    ("HonestDiD.fit", {"method": "relative_magnitude"}, {"lb": {"M", "l_vec", "results"}, "ub": {"M", "l_vec", "results"}, "ci_lb": {"alpha", "M", "l_vec"}, "ci_ub": {"alpha", "M", "l_vec"}}),
    ("HonestDiD.fit", {"method": "combined"}, {"lb": {"M", "l_vec"}, "ub": {"M", "l_vec"}, "ci_lb": {"alpha", "M"}, "ci_ub": {"alpha", "M"}}),
    ("PreTrendsPower.fit", {}, {"power": {"alpha", "violation_type", "M", "results", "pre_periods"}, "mdv": {"alpha", "power", "violation_type", "results"},
                                "critical_value": {"alpha"}}),
    ("PowerAnalysis.power", {}, {"power": {"alpha", "alternative", "effect_size", "n_treated", "n_control", "sigma", "n_pre", "n_post", "rho"}}),
    ("PowerAnalysis.mde", {}, {"mde": {"alpha", "power", "alternative", "n_treated", "n_control", "sigma", "n_pre", "n_post", "rho"}}),
    ("PowerAnalysis.sample_size", {}, {"required_n": {"alpha", "power", "alternative", "effect_size", "sigma", "n_pre", "n_post", "rho", "treat_frac"}}),
    ("wild_bootstrap_se", {}, {"se": {"X", "y", "cluster_ids", "coefficient_index", "n_bootstrap", "weight_type", "seed", "null_hypothesis"},
                               "p_value": {"X", "y", "cluster_ids", "coefficient_index", "n_bootstrap", "weight_type", "seed", "null_hypothesis"},
                               "ci_lower": {"alpha", "seed", "n_bootstrap"}, "ci_upper": {"alpha", "seed", "n_bootstrap"}}),
    ("permutation_test", {}, {"original_se": {"**estimator_kwargs"}, "p_value": {"data", "outcome", "treatment", "time", "unit", "n_permutations", "seed"}, "conf_int": {"alpha", "seed"}, "original_effect": {"data", "outcome", "treatment", "time"}}),
    ("placebo_timing_test", {}, {"se": {"**estimator_kwargs"}, "original_se": {"**estimator_kwargs"}, "placebo_effect": {"data", "outcome", "treatment", "time", "fake_treatment_period", "post_periods"}, "conf_int": {"alpha"}}),
    ("placebo_group_test", {}, {"se": {"**estimator_kwargs"}, "placebo_effect": {"data", "outcome", "time", "unit", "fake_treated_units", "post_periods"}, "conf_int": {"alpha"}}),
    ("leave_one_out_test", {}, {"original_se": {"**estimator_kwargs"}, "placebo_effect": {"data", "outcome", "treatment", "time", "unit"}, "conf_int": {"alpha"}}),
    ("triple_difference", {}, {"att": {"data", "outcome", "group", "partition", "time", "covariates", "estimation_method"}, "conf_int": {"alpha"}, "se": {"robust", "cluster"}}),
    ("compute_honest_did", {}, {"lb": {"results", "M", "method"}, "ci_lb": {"alpha", "M"}, "ci_ub": {"alpha", "M"}}),
    ("bacon_decompose", {}, {"twfe_estimate": {"data", "outcome", "unit", "time", "first_treat"}}),
    ("compute_pretrends_power", {}, {"power": {"results", "M", "alpha", "violation_type"}, "mdv": {"target_power", "alpha"}}),
]

PT = {"data", "outcome", "treatment", "time"}
ARGS = [
    # function, arguments fixed, {component: names that must reach it}
    ("run_placebo_test", {"test_type": "fake_timing"}, {"se": {"**estimator_kwargs"}, "placebo_effect": PT | {"fake_treatment_period", "post_periods"}, "conf_int": {"alpha"}}),
    ("run_placebo_test", {"test_type": "fake_group"}, {"se": {"**estimator_kwargs"}, "placebo_effect": {"data", "outcome", "time", "unit", "fake_treatment_group", "post_periods"}, "conf_int": {"alpha"}}),
    ("run_placebo_test", {"test_type": "permutation"}, {"p_value": PT | {"unit", "n_permutations", "seed"}, "conf_int": {"alpha", "seed", "n_permutations"},
                                                        "original_effect": PT}),
    ("run_placebo_test", {"test_type": "leave_one_out"}, {"placebo_effect": PT | {"unit"}, "conf_int": {"alpha"}}),
    ("simulate_power", {}, {"power": {"estimator", "n_units", "n_periods", "treatment_effect", "treatment_fraction", "treatment_period", "sigma", "n_simulations",
                                      "alpha", "effect_sizes", "seed", "data_generator", "data_generator_kwargs", "estimator_kwargs"},
                            "mean_estimate": {"estimator", "n_units", "n_periods", "treatment_effect", "sigma", "seed"}, "true_effect": {"treatment_effect"},
                            "alpha": {"alpha"}}),
    ("compute_mde", {}, {"": {"n_treated", "n_control", "sigma", "power", "alpha", "n_pre", "n_post", "rho"}}),
    ("compute_power", {}, {"": {"effect_size", "n_treated", "n_control", "sigma", "alpha", "n_pre", "n_post", "rho"}}),
    ("compute_sample_size", {}, {"": {"effect_size", "sigma", "power", "alpha", "n_pre", "n_post", "rho", "treat_frac"}}),
    ("compute_mdv", {}, {"": {"results", "alpha", "target_power", "violation_type", "pre_periods"}}),
]


def subterms(x):
    for y in x:
        if type(y) is T:
            yield y
        elif isinstance(y, (list, tuple)):
            yield from subterms(y)


def arguments(S, c):
    """Every argument of every public function and method is looked at."""
    for n, fn, cls, r in S.all():
        if type(r.retterm) is T and r.retterm.op == "never":
            continue
        ts = [r.retterm] if type(r.retterm) is T else []
        guards = {p.id for e in r.events if e.kind == "raise" for p, b, a in e.pc if type(p) is T}
        late = []
        for e in r.events:
            if e.kind == "raise":
                continue
            for v in e.d.values():
                if type(v) is T:
                    ts.append(v)
                elif isinstance(v, (list, tuple)):
                    ts += [x for x in v if type(x) is T]
            late += [p for p, b, a in e.pc if type(p) is T and p.id not in guards]
        if r.selfref is not None and hasattr(r.I.heap.get(r.selfref.loc), "fields"):
            ts += [r.I.snap(v) for v in r.I.heap[r.selfref.loc].fields.values()]
        seen = set(reach(ts + late))
        used = {y.id for t in seen if not (t.op == "is" and NONE in t.a) for y in t.a if type(y) is T}
        used |= {y.id for t in seen for x in t.a if isinstance(x, (list, tuple)) for y in subterms(x)}
        used |= {y.id for t in seen if t.op == "mu" for y in (t.init, t.next) if type(y) is T}
        used |= {t.id for t in ts}
        if n.split(".")[-1].startswith("_") and not n.split(".")[-1].startswith("__"):
            continue
        for p in fn.params:
            if p in ("self", "cls") or p.startswith("_"):
                continue
            c.ob("arguments used", (n, p))
            if mk("param", p) not in seen:
                c.find("unused:%s:%s" % (n, p), "%s takes `%s` and never looks at it" % (n, p), where=n)
            elif mk("param", p).id not in used:
                c.find("unused:%s:%s" % (n, p), "%s takes `%s` and only looks whether it was given, never at its value" % (n, p), where=n)


def run(S, c):
    c.rule("Rule: the backward slice (data and control) of each result component contains every option and argument "
           "documented to govern it, in the mode where it applies; every argument of every public function and method reaches "
           "its result, its effects or a choice between them (validating an argument is not using it).")
    arguments(S.python(), c)
    for n, fixed, spec in ARGS:
        e = S.find(n)
        if e is None:
            c.undecide("no entry point " + n)
            continue
        r = analyze(S.P, e[1], e[2], {k: const(v) for k, v in fixed.items()}, rust=False)
        fs = fields_of(r.retterm) if "" not in spec else {"": r.retterm}
        mode = ",".join("%s=%s" % x for x in sorted(fixed.items()))
        sl = Slicer(leaf)
        for comp, names in spec.items():
            if comp not in fs:
                c.undecide("%s: no component %s" % (n, comp))
                continue
            got = {x.a[0].split("['")[0] for x in sl.leaves(fs[comp], ())}
            for o in sorted(names):
                c.ob("option reaches component", (n, mode, comp, o))
                if o not in got:
                    c.find("%s:%s:%s:%s" % (n, mode, comp, o), "%s%s: %s does not depend on `%s`, which is silently ignored" % (
                        n, " (%s)" % mode if mode else "", "`%s`" % comp if comp else "the result", o), where=n)
    S = S.python()
    sl = Slicer(leaf)
    for n, opts, spec in SPEC:
        e = S.find(n)
        if e is None:
            c.undecide("no entry point " + n)
            continue
        r = analyze(S.P, e[1], e[2], options={k: const(v) for k, v in opts.items()}, rust=False) if opts else S.res(n)
        fs = fields_of(r.retterm)
        mode = ",".join("%s=%s" % x for x in sorted(opts.items()))
        for comp, names in spec.items():
            f, projs = project(comp)
            if f not in fs:
                c.undecide("%s: no component %s" % (n, f))
                continue
            got = {x.a[0] for x in sl.leaves(fs[f], projs[0])}
            got |= {x[5:] for x in got if x.startswith("self.")}
            have = set(r.params) | {x for x in (r.conf_opts if hasattr(r, "conf_opts") else ())}
            for o in sorted(names):
                c.ob("option reaches component", (n, mode, comp, o))
                if o not in got:
                    c.find("%s:%s:%s:%s" % (n, mode, comp, o), "%s%s: `%s` does not depend on `%s`, which is silently ignored" % (
                        n, " (%s)" % mode if mode else "", comp, o), where=n)
    c.floor("option reaches component", 200)
