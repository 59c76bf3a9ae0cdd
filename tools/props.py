"""Property table (source of properties.jsonl and MANIFEST.json)."""
PKG = "diff_diff/"
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=[PKG + f for f in files], mech=mech, tech=tech, note=note))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                   files=[PKG + f for f in files], mech=mech, reason=reason))


COMMON = ("Assumes Python/numpy/pandas library semantics as tabled in /verif/sa; loops are analysed to a fixed point of their "
          "carried values, callbacks once, internal calls are inlined (depth 14), and constructs the interpreter cannot "
          "resolve are reported as undecided rather than alarmed.")

P("C01", "Public calls never modify the objects they are given",
  "No public function, estimator constructor, fit/predict/aggregate/plot method or diagnostic changes the contents of any "
  "object the caller passed in: data frames, arrays, lists, dicts, or result and estimator objects. Columns, index, order and "
  "values of a caller's data frame are the same after the call as before it, on every path including failing ones. The only "
  "exceptions are a matplotlib axes passed in order to be drawn on, and functions with an inplace argument when it is True.",
  ["inputs", "configurations"], "for all inputs, all option combinations, and every path through a call",
  "Tests compare inputs before and after for a couple of calls with default options; the property ranges over every entry point, option and path.",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "triple_diff.py", "trop.py", "synthetic_did.py", "prep.py", "diagnostics.py", "linalg.py", "utils.py"],
  [("defensive copies before column assignment", "data.copy() at the head of every fit and preparation function")],
  "interprocedural may-alias + side-effect analysis",
  "Every in-place operation reachable from 254 public entry points has its target's may-alias roots computed; none may be a parameter. " + COMMON)

P("C02", "A fit's outcome is independent of what was fitted before",
  "What fit (and any other public call) returns, raises or leaves on the estimator is determined by its arguments and the "
  "estimator's options alone. Nothing left over from an earlier fit on the same object, and nothing remembered at module or "
  "class level (caches, counters, mutable default arguments), can reach the results; every attribute a fit publishes is "
  "rewritten by each fit, whichever options or branches the fit takes.",
  ["inputs", "histories"], "for all sequences of fits, option changes and other calls on one object or in one process",
  "Tests fit an estimator once or twice; the property ranges over every history of calls, including ones that switch inference mode or fail midway.",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "triple_diff.py", "trop.py", "synthetic_did.py", "bacon.py", "honest_did.py", "pretrends.py", "power.py"],
  [("attributes reset at fit", "fit methods writing self.*_ and self._* attributes"), ("module-level objects", "diff_diff/_backend.py, datasets.py, linalg.py")],
  "interprocedural value-flow (stale-state taint) and effect analysis",
  "Attributes not set by the constructor's options start a fit as taint; none may reach the return value, a raise condition or a published attribute; stores to module- or class-level objects are alarms. " + COMMON)

P("C03", "Only the constructor and set_params change an estimator's options",
  "Fitting, predicting, aggregating, summarising or plotting never changes the options of an estimator: after any such call every "
  "option (what get_params reports, and the attribute of the same name) holds the very object and contents it held before, also "
  "when the call raises. The same holds for estimators handed to power simulation, placebo and sensitivity functions.",
  ["inputs", "configurations", "histories"], "for all methods, option values and paths, including failing ones",
  "Tests look at options after construction; the property ranges over all methods and all paths through them.",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "triple_diff.py", "trop.py", "synthetic_did.py", "power.py", "diagnostics.py"],
  [("options stored by constructors", "__init__ of each estimator"), ("fit methods", "fit of each estimator")],
  "interprocedural effect analysis",
  "Every store to an attribute a constructor filled from an option, and every in-place change of the object such an attribute holds, reachable from any non-constructor method, is an alarm. " + COMMON)

P("C04", "A caller's seed determines every random draw",
  "With a seed given, bootstrap, placebo, permutation, simulation and data-generation results repeat exactly: every random draw reachable "
  "from a public call comes from a generator built from the caller's seed (or from a generator the caller handed over), never "
  "from numpy's or Python's global generator, the clock, object identities or thread scheduling, and no branch drops the seed. "
  "Different replications of a loop draw from one advancing generator or from distinct seeds, never repeatedly from the same "
  "restarted one.",
  ["inputs", "configurations"], "for all public calls, seeds and options",
  "Tests repeat a few seeded calls; an unseeded generator on one path, or a constant seed inside a loop, needs the specific path to show.",
  ["staggered.py", "sun_abraham.py", "synthetic_did.py", "trop.py", "utils.py", "diagnostics.py", "power.py", "prep.py", "datasets.py"],
  [("generator construction from seed", "np.random.default_rng(seed) at each resampling entry point"), ("seed handed to the Rust backend", "_rust_* calls in staggered.py and trop.py")],
  "interprocedural value-flow (provenance of generators)",
  "Each generator construction reachable from the API must have a seed argument derived from the caller's seed and nothing else; global-generator, clock, identity and completion-order sources are alarms. " + COMMON)

P("C05", "Calls and import leave process-wide settings alone",
  "Importing the package and calling anything in it leaves interpreter- and process-wide settings as they were: numpy's random "
  "state and error handling, Python's random state, warning filters outside a catch_warnings block, environment variables, "
  "matplotlib and pandas options, the working directory, signal handlers, and other libraries' attributes.",
  ["inputs", "configurations"], "for all public calls, options, and orders of import",
  "Tests do not compare process state before and after; the property ranges over every call and every failing path.",
  ["datasets.py", "utils.py", "staggered.py", "trop.py", "visualization.py", "_backend.py", "linalg.py", "diagnostics.py"],
  [("scoped numpy.errstate / catch_warnings", "with blocks around numeric code"), ("import-time code", "__init__.py, _backend.py")],
  "interprocedural effect analysis",
  "External calls reachable from the API and module-level code are matched against a table of process-wide setters; a setter is allowed only inside the scope that restores it. " + COMMON)

P("C06", "Results do not depend on the iteration order of sets",
  "Running the same call in another process, with another hash seed, gives the same results, in the same order and bit for bit: no "
  "set is iterated, listed or zipped in a way that its arbitrary order can reach a result, a random draw, a floating-point "
  "accumulation, a column layout or a message. Sets are sorted first, or only used for membership, size and set algebra.",
  ["inputs", "configurations"], "for all inputs and every hash seed / element order",
  "Set order of small ints and of strings in one process is stable, so tests cannot see it; the property ranges over all orders.",
  ["prep.py", "staggered.py", "sun_abraham.py", "trop.py", "bacon.py", "estimators.py", "visualization.py"],
  [("sorting before iteration", "sorted(...) around set algebra in fit and prep functions")],
  "interprocedural value-flow (unordered-source taint)",
  "Every set-valued expression reachable from the API is followed to its uses; iteration or materialisation whose order can escape is an alarm. " + COMMON)

P("C07", "File and network effects are confined to the dataset cache",
  "Estimation, preparation, diagnostics, power and plotting code touches neither the file system nor the network, apart from the "
  "file name the caller passes to be written. Only the dataset loaders do: they write below ~/.cache/diff_diff/datasets, one "
  "distinct file per dataset, delete only .csv files in that folder, return the same file they cached, and fall back to the cached copy or the built-in "
  "data set whenever a download fails (connecting or reading), without leaving a partly written file behind that a later call would use.",
  ["inputs", "fault_sequences"], "for all public calls, with or without network, and any state of the cache folder",
  "Tests run without network on a fresh cache; the property ranges over all entry points and failure points.",
  ["datasets.py", "visualization.py", "__init__.py"],
  [("download and cache", "datasets._download_with_cache, _get_cache_path, clear_cache"), ("fallback data", "datasets._construct_*")],
  "interprocedural effect analysis",
  "All file, network, process and code-execution calls reachable from the API are enumerated; each must be in the loader, on a path under the cache root, or on the caller's own path argument. " + COMMON)

P("C08", "Constructor, get_params and set_params agree",
  "For each estimator, get_params returns exactly the constructor's options with the values the estimator uses, so that "
  "cls(**est.get_params()) is an equivalent estimator; set_params(name=value) has the effect of constructing with that value for "
  "every option and accepted value, returns the estimator itself, and raises ValueError for any name that is not an option, which is then not stored on the object.",
  ["inputs", "configurations"], "for all estimators, options, values and unknown names",
  "Tests round-trip two or three options per estimator; the property ranges over all options, aliases, and all non-option names.",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "triple_diff.py", "trop.py", "synthetic_did.py", "bacon.py", "honest_did.py", "pretrends.py", "power.py"],
  [("get_params / set_params", "methods of each estimator class")],
  "symbolic constructor/accessor comparison over the syntax tree",
  "The attribute map produced by the constructor, by get_params and by set_params with each option name is computed symbolically and compared. " + COMMON)

P("C09", "Every named alternative is accepted and distinct; any other name is refused",
  "For each constructor option and function argument documented as choosing among named alternatives (inference mode, bootstrap "
  "weights, rank-deficiency action, control group, estimation method, base period, variance method, TROP method, sensitivity method, "
  "violation type, aggregation, plot type, dataset name and the like), every documented name is accepted and selects its own behaviour, "
  "different from that of the other names. Any other string raises ValueError (for constructor options: at construction or at the "
  "latest in the next fit) and is never silently treated as one of the alternatives (run_placebo_test folds letter case first).",
  ["inputs", "configurations"], "for all documented alternatives and all other strings, on every path",
  "Tests use most alternatives once and one or two bad names; the property ranges over every option, value and unknown string.",
  ["estimators.py", "staggered.py", "sun_abraham.py", "triple_diff.py", "trop.py", "synthetic_did.py", "bacon.py", "honest_did.py", "pretrends.py", "power.py", "prep.py", "diagnostics.py", "utils.py", "linalg.py", "datasets.py", "visualization.py", "results.py"],
  [("value checks", "constructors and heads of functions"), ("dispatch on the option", "if/elif chains on option values")],
  "symbolic evaluation of option dispatch (comparison of control and value terms per alternative)",
  "Each alternative's run is computed with the option fixed and the rest symbolic: it must be able to return, must differ from the others' runs, and an unknown string must raise ValueError. " + COMMON)

P("C10", "Inference options never move point estimates; alpha moves only intervals",
  "Options that choose how uncertainty is computed (alpha, seed, number of replications, bootstrap weights, variance or inference "
  "method, robust, cluster) never affect point estimates, weights, counts or other non-inferential parts of a result. Changing only "
  "alpha changes interval endpoints and what is read off them (significance flags, critical values, minimum detectable sizes), and "
  "leaves standard errors, test statistics, p-values and replicate distributions as they are.",
  ["inputs", "configurations"], "for all data and all settings of the inference options",
  "Tests compare estimates across a few settings on one data set; the property ranges over all data, options and result components.",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "triple_diff.py", "trop.py", "synthetic_did.py", "diagnostics.py", "honest_did.py", "linalg.py"],
  [("separate estimation and inference steps", "fit methods and _compute_inference helpers")],
  "interprocedural dependence (program slicing) per result component",
  "The backward slice (data and control) of each point-estimate component must not contain an inference option; the slice of SEs, t, p must not contain alpha. " + COMMON)

P("C11", "Every option and argument reaches the results it is documented to govern",
  "No option or argument is silently ignored: each one has a path to the result components it is documented to govern, in every "
  "estimator and convenience function. For example covariates, control group, anticipation and estimation method reach the estimates "
  "of each group and time; alpha reaches every interval; cluster and robust reach the standard errors, t statistics, p-values and "
  "intervals; seed and number of replications reach every resampling-based quantity.",
  ["inputs", "configurations"], "for all estimators, options, arguments and result components",
  "A test of one option on one data set sees one component change; the property ranges over every option and component, including rarely used ones.",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "triple_diff.py", "trop.py", "synthetic_did.py", "bacon.py", "honest_did.py", "pretrends.py", "power.py", "diagnostics.py", "prep.py", "utils.py"],
  [("options stored by constructors", "__init__ methods"), ("arguments forwarded by convenience functions", "triple_difference, trop, bacon_decompose, compute_* wrappers")],
  "interprocedural dependence (program slicing) per result component",
  "A table of (entry, component, option) obligations read off the documentation is decided on the backward slice of each component. " + COMMON)

P("C12", "rank_deficient_action governs every regression of a fit",
  "With rank_deficient_action='error', any rank-deficient design met by any regression of the fit raises ValueError to the caller; "
  "with 'warn' it is reported by a warning; with 'silent' neither happens. The choice between 'warn' and 'silent' never changes the "
  "numbers reported, and no regression of the fit uses a policy other than the caller's.",
  ["inputs", "configurations"], "for all data (any collinearity pattern), estimators, options, and every regression inside a fit",
  "Tests make one design deficient in a few estimators; the property ranges over every internal regression, including propensity, reweighting and bootstrap ones.",
  ["linalg.py", "estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "triple_diff.py", "utils.py"],
  [("policy parameter of the solver", "linalg.solve_ols"), ("policy forwarded by each fit", "calls of solve_ols and LinearRegression")],
  "interprocedural value-flow with exception-handler typestate",
  "Each least-squares call reachable from a fit must receive the caller's policy (or a design already reduced to full rank), and no handler on the path may swallow its ValueError. " + COMMON)


INF = ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "triple_diff.py", "trop.py", "synthetic_did.py", "honest_did.py", "diagnostics.py", "linalg.py", "utils.py"]

P("C13", "Confidence intervals have the requested level",
  "Every confidence interval a fit or diagnostic returns (overall, per group and time, event study, per period, placebo, wild bootstrap, "
  "honest bounds) is, for every alpha, either the estimate minus and plus the 1 - alpha/2 point of one reference distribution times a "
  "standard error, or the alpha/2 and 1 - alpha/2 quantiles of one replicate distribution, or undefined (NaN, NaN), or of zero width "
  "when the standard error is zero. The lower endpoint comes first, and alpha is the one the caller chose, never a fixed 5%.",
  ["inputs", "configurations"], "for all data, all alpha in (0,1) and every option combination",
  "Tests use the default alpha almost everywhere; the property ranges over every alpha, record and branch.",
  INF, [("one interval formula", "utils.compute_confidence_interval"), ("percentile intervals", "bootstrap helpers of staggered, sun_abraham, utils")],
  "symbolic normal forms of returned terms, branch world by branch world",
  "Endpoints of every inference record reachable from a public call are normalised to polynomials over opaque atoms and matched against the two interval forms. " + COMMON)

P("C14", "The numbers of one inference record agree with each other",
  "Within every reported estimate, standard error, t statistic, p-value and interval that belong together: an interval built from a "
  "critical value is centred on the reported estimate and scaled by the reported standard error; the t statistic is the reported "
  "estimate divided by the reported standard error; a p-value read from a t or normal tail is the two-sided tail of exactly that t "
  "statistic, in the same reference distribution (and degrees of freedom) the interval uses.",
  ["inputs", "configurations"], "for all data and options, every record of every result",
  "Tests check ranges and signs for a few fits; the property ties each number to the others for all inputs, including rarely taken branches.",
  INF, [("inference assembled per record", "fit methods, LinearRegression.get_inference, bootstrap updates of staggered and sun_abraham")],
  "symbolic normal forms of returned terms, branch world by branch world",
  "Estimate and standard error of each record are made atoms; t, p and interval must normalise to the stated functions of them. " + COMMON)

P("C15", "Undefined inference is NaN, never a placeholder number",
  "Where a standard error is zero, NaN or cannot be computed, the t statistic and the p-value derived from it are NaN and the interval is "
  "NaN or of zero width; no estimator reports a stand-in such as t = 0 or p = 1, and no estimator divides by a standard error that may "
  "be zero. (A regression that fits exactly reports an infinite t statistic.)",
  ["inputs", "configurations"], "for all data, including degenerate and exactly fitted panels",
  "Degenerate standard errors need special data; tests exercise them in one or two estimators only.",
  INF, [("guards before division", "every t statistic computation"), ("NaN principle", "docs/methodology/REGISTRY.md")],
  "symbolic normal forms of returned terms, branch world by branch world",
  "In each branch world where the record's standard error is constant zero or NaN, t and p must normalise to NaN; ratio worlds must carry a condition excluding zero. " + COMMON)

P("C16", "Resampling p-values are valid functions of the replicates",
  "Every p-value computed from replicates is a permutation or bootstrap p-value of the sample it belongs to: the randomisation form "
  "counts replicates at least as extreme as the reported statistic (ties included, two-sided on absolute values), from a "
  "distribution generated under the null or centred at the value it was generated from, and is never below 1/(replicates used + 1); "
  "the bootstrap form is twice the tail on the far side of zero, capped at 1. The standard error, the p-value and the percentile interval of one record "
  "use the same replicates, the standard error is their sample standard deviation (ddof = 1), and replicates that failed are left "
  "out rather than replaced by a stand-in.",
  ["inputs", "configurations"], "for all data, seeds, replicate counts and resampling options",
  "Tests check that a p-value lies in [0,1] for a handful of seeds; direction, ties, centring and failed replicates need special samples.",
  ["staggered.py", "sun_abraham.py", "synthetic_did.py", "trop.py", "diagnostics.py", "utils.py"],
  [("wild cluster bootstrap p-value", "utils.wild_bootstrap_se"), ("multiplier bootstrap statistics", "staggered CallawaySantAnna._compute_effect_bootstrap_stats"),
   ("permutation and placebo p-values", "diagnostics.permutation_test, SyntheticDiD.fit"), ("pairs bootstrap", "sun_abraham._run_bootstrap, trop._bootstrap_variance")],
  "symbolic normal forms of returned terms, branch world by branch world",
  "p-value terms are parsed as (count or mean of a comparison over replicates) and decided against the forms of the statement; replicate arrays are traced to what fills them. " + COMMON)

P("C17", "Bootstrap weights follow the documented two- and six-point distributions",
  "The multiplier weights (CallawaySantAnna) and wild-bootstrap weights are drawn from exactly the distribution the option names, and "
  "that distribution has mean 0 and variance 1: Rademacher is -1 or 1 with equal probability, Mammen the two-point golden-ratio "
  "distribution, Webb the six points +-sqrt(3/2), +-1, +-sqrt(1/2) with equal probability. One weight is drawn per unit (or per "
  "cluster), shared by all of that unit's contributions, and the draws are used as drawn, without rescaling.",
  ["inputs", "configurations"], "for all weight options, seeds, unit/cluster counts and replicate counts",
  "A test can only look at sample moments of a few draws; small errors in support points or probabilities are inside sampling error.",
  ["staggered.py", "utils.py"],
  [("weight generators", "staggered._generate_bootstrap_weights_batch, utils._generate_*_weights"), ("option dispatch", "utils.wild_bootstrap_se, staggered._run_multiplier_bootstrap")],
  "constant folding of support points and probabilities + value-flow to the use sites",
  "Support and probability tables reached under each option value are folded and their moments computed in closed form; flow from table to statistic is checked for rescaling. " + COMMON)

P("C18", "Group-time effects compare the documented units in the documented periods",
  "CallawaySantAnna's ATT(g,t) compares the change in the outcome between the base period and t for cohort g with the same change for "
  "the control group. The base period is g - 1 - anticipation, except that under base_period='varying' a pre-treatment cell uses t - 1. "
  "With control_group='never_treated' the controls are exactly the units never treated (first_treat 0 or infinite); with "
  "'not_yet_treated' they are the never treated and the units first treated after t (beyond the anticipation window), never a unit "
  "already treated by t nor the treated cohort itself. Without covariates every estimation method gives the difference of the two "
  "groups' mean changes; with covariates the outcome model is fitted on controls only and covariates are read in the base period. "
  "n_treated and n_control count exactly the units used.",
  ["inputs", "configurations"], "for all panels, cohorts, periods, anticipation values, both control groups and base periods, all three estimation methods",
  "Tests recover effects from a few simulated panels; a wrongly bounded comparison shows up only at particular cohort and period gaps.",
  ["staggered.py"],
  [("group-time cells", "staggered.CallawaySantAnna._compute_att_gt_fast and its precomputed structures"), ("documented control groups and base periods", "docs/methodology/REGISTRY.md")],
  "symbolic normal forms of effects; row masks decided on all order types of cohort, g, t, anticipation",
  "Effects are normalised to differences of group means of outcome columns; masks are evaluated over every ordering of the quantities they compare. " + COMMON)

P("C19", "Aggregate effects are properly weighted averages of the documented cells",
  "Each aggregate effect is SUM(w * effect) / SUM(w) over one set of effects, so its weights are non-negative and sum to one: "
  "CallawaySantAnna overall ATT over the cells with t >= g - anticipation, weighted by treated units; its event study at e over the "
  "cells with t - g = e with the same weights (with balance_e, only cohorts observed at balance_e); its group effect the plain mean of "
  "the cohort's post-treatment cells; bootstrap replicates of an aggregate combine the same cells with the same weights. SunAbraham's "
  "event study at e averages cohort effects by cohort size and its overall ATT averages the effects at e >= 0. MultiPeriodDiD's average "
  "effect is the plain mean over the post periods. TROP (twostep) is the plain mean over treated cells of the outcome minus unit, time "
  "and low-rank parts.",
  ["inputs", "configurations"], "for all panels, cohort structures, anticipation values and options",
  "Tests use panels with equal cohort sizes or few cohorts, where different weights and cell sets give nearly the same number.",
  ["staggered.py", "staggered_aggregation.py", "staggered_bootstrap.py", "sun_abraham.py", "estimators.py", "trop.py"],
  [("overall, event-study and group aggregation", "staggered_aggregation.py"), ("bootstrap aggregation", "staggered_bootstrap.py"),
   ("interaction-weighted aggregation", "sun_abraham._compute_iw_effects, _compute_overall_att"), ("average effect", "MultiPeriodDiD.fit"), ("ATT from treated cells", "TROP.fit")],
  "symbolic normal forms of sums over collections; selection conditions decided on all order types",
  "Loops, comprehensions and array expressions are normalised to sums over a source collection with conditions; numerator and denominator must share the source and the weight. " + COMMON)

P("C20", "Regression estimators report the documented coefficient of the documented design",
  "DifferenceInDifferences, TwoWayFixedEffects, MultiPeriodDiD, TripleDifference (regression method) and SunAbraham solve an ordinary "
  "least-squares problem whose columns are exactly the documented ones in every combination of optional arguments: constant, treatment, "
  "time and their product(s); period indicators without the reference period and one treatment product per post period; all group, "
  "partition and time products; one indicator per cohort and relative time except -1 - anticipation, with unit and time means taken "
  "out; plus the covariates as given and one dummy per fixed-effect level but one. Variables that are absorbed are taken out of the "
  "outcome and of every regressor alike. The effect reported, the effect filed under a period or under a (cohort, relative time) cell, "
  "and every named coefficient is the coefficient of its own column. Residuals are y - Xb, fitted values Xb, and R-squared one minus the "
  "residual share of the centred sum of squares.",
  ["inputs", "configurations"], "for all data, column names, covariate lists, fixed effects, absorbed variables, periods and cohorts",
  "Tests fit a few balanced panels where a misplaced column, a shifted index or a missing product changes the estimate little or not at all.",
  ["estimators.py", "twfe.py", "triple_diff.py", "sun_abraham.py", "linalg.py", "utils.py"],
  [("design and coefficient", "DifferenceInDifferences.fit, MultiPeriodDiD.fit"), ("within transformation", "utils.within_transform, demean_by_group"),
   ("saturated regression", "sun_abraham._fit_saturated_regression"), ("triple difference regression", "triple_diff._regression_adjustment"), ("solver and helper", "linalg.solve_ols, LinearRegression.fit")],
  "symbolic column layout of design matrices compared with the documented layout",
  "Every matrix reaching the least-squares solver is read column by column (loops, appended columns, dummy blocks, group-demeaned frames); positions of reported coefficients are resolved to columns. " + COMMON)

P("C21", "Power, minimum detectable effect and sample size agree with each other",
  "PowerAnalysis uses one variance of the design: sigma^2 (2/nT + 2/nC) for two periods, and sigma^2 (1/nT + 1/nC)(1 + (T-1) rho)/T for "
  "T > 2. power is the normal power of the chosen alternative at effect / standard error; the minimum detectable effect is "
  "(z_alpha + z_power) standard errors; the required sample is the N (rounded up, at least 4) whose minimum detectable effect at the given "
  "treated fraction is the effect asked for, and its parts are ceil(N f) treated units and the rest (at least two each). Power curves and the "
  "compute_* functions give the same values. simulate_power reports the share of successful fits with p < alpha for the effect it simulated, "
  "and estimate, coverage and true effect belong to that same effect. PreTrendsPower's power at magnitude M is the chance that a noncentral "
  "chi-square with n degrees of freedom and noncentrality M^2 w'V^-1 w exceeds the 1 - alpha quantile, w the unit-norm pattern of the violation "
  "type; power_at, power curves and the minimum detectable violation use the same w, V and quantile.",
  ["inputs", "configurations"], "for all effects, sample sizes, period counts, correlations, levels, alternatives and violation types",
  "Tests check ranges and monotonicity at a few settings; the inverse relation between the formulas is not tested.",
  ["power.py", "pretrends.py"],
  [("closed forms", "PowerAnalysis.power, mde, sample_size, power_curve, sample_size_curve"), ("simulation", "power.simulate_power"),
   ("pre-trends", "PreTrendsPower.fit, power_at, power_curve; PreTrendsPowerResults.power_at")],
  "computer algebra on extracted closed forms: equality with the documented formula in every branch",
  "Formulas are read off the value flow of each public call, brought to canonical algebraic form per branch and compared as expressions. " + COMMON)

P("C22", "Standard errors are those of the documented covariance of the reported fit",
  "For the regression estimators the standard error of a coefficient is the square root of that coefficient's own diagonal element of the "
  "covariance matrix of the same fit (same design after dropped columns, same residuals). The matrix is HC1, n/(n-k) A X'diag(u^2)X A with "
  "A = (X'X)^-1, when robust and no cluster is given; the classical u'u/(n-k) A when robust=False; and the cluster-robust one, "
  "G/(G-1) (n-1)/(n-k) A (sum over clusters of scores s_g s_g') A, whenever a cluster is given, with G the number of distinct clusters, n the "
  "rows and k the columns kept. TwoWayFixedEffects and SunAbraham cluster by unit unless another column is named; LinearRegression uses the "
  "labels of the fit call before its own. Average effects (MultiPeriodDiD's average, Sun-Abraham's event-study effects and overall ATT) have "
  "variance w'Vw with the weights and coefficients of the reported average and the full covariance matrix between them. "
  "compute_robust_vcov and solve_ols return the same matrices.",
  ["inputs", "configurations"], "for all designs, cluster structures, rank deficiencies and option combinations",
  "Tests compare a few well-conditioned data sets; wrong small-sample factors, mislabelled clusters or left-out covariances move a standard "
  "error by little and pass tolerance tests.",
  ["linalg.py", "estimators.py", "twfe.py", "sun_abraham.py", "triple_diff.py"],
  [("covariance estimators", "linalg.compute_robust_vcov, solve_ols, LinearRegression.fit"), ("effects", "DifferenceInDifferences.fit, TwoWayFixedEffects.fit, MultiPeriodDiD.fit, TripleDifference.fit"),
   ("averages", "SunAbraham._compute_iw_effects, _compute_overall_att; MultiPeriodDiD.fit")],
  "matrix algebra on extracted value flow: canonical sums of products of design, residual, cluster-sum and inverse factors compared with the documented estimator",
  "Each reported standard error is traced to an element of a covariance expression; the expression is normalised and compared factor by factor "
  "in every configuration and branch (full rank, columns dropped, clustered or not). " + COMMON)


P("C23", "Summaries, exports, flags and tables show exactly the stored results",
  "What a results object shows is what it stores. Every entry of to_dict and to_dataframe, and every row of the tables of period, cohort, "
  "group-time, comparison, weight and unit effects, is the stored value its name stands for: identifiers come from the element's own key, "
  "interval ends from the stored interval, estimate, standard error, t, p and interval are never left out, and every stored element has its "
  "row. In summary() and repr() each labelled number, table column and interval end is the stored value its label names, at the level of the "
  "stored interval. is_significant is p < alpha (5% for objects that store no level, the robust interval excluding zero for HonestDiD), "
  "significance stars are *** below 0.001, ** below 0.01, * below 0.05, . below 0.1 and nothing for NaN, and verdicts in words (robust, "
  "significant placebo, power meets target, breakdown value) appear exactly when the stored numbers warrant them.",
  ["inputs"], "for all results objects, whatever numbers they hold",
  "Tests look for a few substrings in summaries and a few keys in exports; a swapped column, a dropped row or a verdict at the boundary passes.",
  ["results.py", "staggered_results.py", "sun_abraham.py", "triple_diff.py", "trop.py", "bacon.py", "honest_did.py", "power.py", "pretrends.py", "diagnostics.py", "utils.py", "linalg.py"],
  [("exports", "to_dict, to_dataframe, get_*_df, weight_by_type, effect_by_type, power_curve_df of every results class"),
   ("text", "summary and __repr__ of every results class"), ("flags", "is_significant, significance_stars, has_breakdown, power_adequate")],
  "value-flow provenance of every shown value against the stored field its label names; order-type partition for flags and verdicts",
  "Each shown value is traced to a stored field in every branch; flags and verdicts are piecewise constant in the stored numbers and are "
  "decided on the finite partition by the constants they compare with. Known findings: summary(alpha) of seven classes. " + COMMON)


P("C24", "SyntheticDiD computes the documented estimator of the documented panel blocks",
  "SyntheticDiD's att is the synthetic difference-in-differences contrast: the treated units' mean post-period outcome less its time-weighted "
  "pre-period mean, minus the unit-weighted average over control units of the same difference, where the blocks are the treated and control "
  "units' outcomes in the pre- and post-periods (the caller's post_periods and all other periods, or the later and earlier half), controls "
  "and periods in the order their weights are in. Unit weights are computed from pre-period outcomes alone by descent on "
  "||y - Yw||^2 + lambda_reg ||w - 1/n||^2 over the simplex, time weights are proportional to 1/(|y - mean control| + zeta sd). The weights "
  "reported are those used, keyed by the units and periods they belong to; pre_treatment_fit is the root mean squared gap. With covariates "
  "the outcome is first replaced by its residual on covariates, unit and time effects plus its mean. Placebo replicates split the controls "
  "by a random permutation into as many pseudo-treated as there are treated units, reuse the time weights and renormalise the unit weights; "
  "bootstrap replicates recompute everything on the resampled units; the standard errors are sqrt((r-1)/r) sd and sd of the replicates.",
  ["inputs"], "for all panels, period splits, weights and draws",
  "Tests compare an estimate with a tolerance on a few simulated panels and check that weights sum to one.",
  ["synthetic_did.py", "utils.py"],
  [("fit", "SyntheticDiD.fit, _create_outcome_matrices, _residualize_covariates"), ("replicates", "SyntheticDiD._bootstrap_se, _placebo_variance_se"),
   ("weights", "compute_synthetic_weights, compute_time_weights, compute_sdid_estimator")],
  "canonical sums of products over labelled axes (tensor normal forms) compared with the documented formula",
  "Array code is normalised to sums of products over named period/unit axes with exact rational coefficients, branches enumerated; blocks are "
  "identified by the selection conditions of their rows and columns. " + COMMON)


P("C25", "The Bacon decomposition makes every 2x2 comparison from the documented cells",
  "BaconDecomposition makes, for every timing group and the never-treated units (first treatment 0 or infinity) and for every pair of timing "
  "groups in both directions, exactly one 2x2 comparison whenever it has pre- and post-periods and control units, and none otherwise. Its "
  "estimate is the change of the treated group's mean outcome less the change of the control group's, from the documented pre- to the "
  "documented post-periods (before/after treatment; before the earlier group / between the two; between the two / after the later group); "
  "n_treated and n_control count units. Weights are proportional to the group-share and treatment variance of the 2x2 sample (times the "
  "window's share of periods, or exactly Theorem 1: squared sample share times that variance), normalised to sum to one before they are "
  "summed; totals and averages by type are over that type's comparisons, twfe_estimate is the within-transformed slope on the indicator "
  "time >= first treatment, and decomposition_error is |twfe_estimate - sum of weight times estimate|.",
  ["inputs"], "for all balanced panels and treatment timings",
  "Tests check that weights sum to one and that a few simulated decompositions have all types; which rows enter a mean and with what weight is not compared.",
  ["bacon.py"],
  [("fit", "BaconDecomposition.fit, _compute_treated_vs_never, _compute_timing_comparison"), ("weights", "BaconDecomposition._recompute_exact_weights"),
   ("twfe", "BaconDecomposition._compute_twfe")],
  "abstract cells (first-treatment period x period) on all order types; counts and means as rational functions, compared exactly",
  "Row selections become sets of cells on representatives of every order type of cohorts and periods; counts and means become factored rational "
  "functions of cell sizes and totals and must equal the documented ones. " + COMMON)

P("C26", "Honest bounds come from the event study's own post-period effects and covariance",
  "HonestDiD reports as original estimate the weighted (default: equal) average of the event study's post-period effects (event times >= 0 for "
  "CallawaySantAnna, normalised and undefined ones left out), and as standard error the root of the same weights in the covariance of exactly "
  "those effects (the rows and columns of the post-period interactions, whatever the treatment column is called; otherwise the squares of their "
  "own standard errors). Relative magnitude bounds are the estimate -/+ M times the largest absolute pre-period effect; smoothness bounds are "
  "the estimate -/+ the largest weighted post-period violation whose second differences over all pre- and post-periods are at most M; combined "
  "bounds are their intersection (the estimate if empty). Every sensitivity row belongs to its own M; breakdown values are None when no "
  "interval contains zero, 0 when all do, and otherwise located by a search that keeps zero outside the interval at its lower and inside at its "
  "upper end. compute_honest_did gives the same values.",
  ["inputs", "configurations"], "for all event studies, M, grids, weights, methods and numbers of periods",
  "Tests check types, ordering and a few mock results whose covariance matrix has post-period rows only; which rows of a real fit are read is not compared.",
  ["honest_did.py"],
  [("inputs", "honest_did._extract_event_study_params, HonestDiD.fit, HonestDiD._estimate_max_pre_violation"),
   ("bounds", "HonestDiD._compute_smoothness_bounds, _compute_rm_bounds, _compute_combined_bounds, honest_did._solve_bounds_lp"),
   ("breakdown", "HonestDiD._find_breakdown, HonestDiD.breakdown_value")],
  "extracted scalars over canonical vectors (effects of a period set), covariance blocks and one linear-programme atom, compared algebraically",
  "Lists with one entry per period become (quantity, period set, order); filters on event times are decided on all order types; slices with "
  "symbolic bounds select subsets; scalars over their inner products must equal the documented ones. " + COMMON)


P("C27", "Weighting, regression and doubly robust formulas are the documented ones",
  "CallawaySantAnna group-time effects and TripleDifference (ipw, dr) estimates are, for any data, the documented formulas of the observations "
  "of each group. CallawaySantAnna: reg = mean over the cohort of its change less the prediction of a least squares fit (intercept and covariates) "
  "on the controls; ipw = mean change of the cohort less the controls' mean weighted by the odds p/(1-p) of a logistic fit of membership on the "
  "covariates, p clipped to [0.01, 0.99]; dr = the regression comparison less the odds-weighted control residuals over the cohort's size; all three "
  "reduce to the difference of mean changes without covariates, and covariates dropped as collinear contribute nothing. Standard errors and the influence values passed to aggregation and bootstrap are "
  "those of the same estimate. TripleDifference: ipw weighs each of the four groups by p(treated, eligible)/p(group) (products of two logistic fits, "
  "or shares, clipped to the trimming bounds) within each period, dr adds to each group and period model averaged over the treated-eligible of that "
  "period its weighted residuals; the standard error is the standard deviation of the influence values over root n. Group means, counts, r_squared "
  "and propensity statistics describe the groups they name.",
  ["inputs"], "for all data, group sizes, covariates and trimming bounds",
  "Tests compare estimates with tolerances on a few simulated data sets, mostly balanced, and only check that standard errors are positive.",
  ["staggered.py", "triple_diff.py"],
  [("group-time", "CallawaySantAnna._outcome_regression, _ipw_estimation, _doubly_robust"),
   ("triple", "TripleDifference._ipw_estimation, _doubly_robust, _compute_cell_means"), ("fits", "_logistic_regression, _linear_regression")],
  "arrays as one expression per cell of a partition of the observations; totals as named sums per cell; logistic fits recognised from the "
  "likelihood and gradient they hand to the optimiser; results compared as exact identities in the sums",
  "Every array is a function of one observation's own quantities and of sums over cells; masks, blocks, concatenations and slices select cells; "
  "sums are linear in monomials; results must equal the documented closed forms at exact points for every sum. " + COMMON)


P("C28", "Placebo tests and preparation helpers use the documented rows and columns",
  "For every unbalanced panel, row order, period labelling and set of post periods: the fake-timing placebo refits on pre-treatment rows only with the "
  "indicator switching on at the fake period; the fake-group placebo compares the fake units with never-treated units on the given post periods; "
  "each permutation replicate reassigns treatment to as many units as are treated, drawn without replacement from all units, constant within a "
  "unit; leave-one-out drops exactly one ever-treated unit's rows at a time and averages the effects; all refits use the caller's estimator "
  "options and significance level, and run_all_placebo_tests runs each on the same request. Requests that contradict themselves are refused. make_treatment_indicator, "
  "make_post_indicator and create_event_time add the documented column row by row; balance_panel keeps complete units, or completes the "
  "unit-by-period grid and fills within a unit only; wide_to_long pairs each value column with its own period; aggregate_to_cohorts reports group means "
  "and numbers of distinct units; summarize_did_data's DiD row is the difference of differences of cell means; validate_did_data calls data valid "
  "exactly when nothing documented is wrong, and counts what it says it counts.",
  ["inputs"], "for all panels, row orders, gaps and period labels",
  "Tests use balanced, sorted simulated panels with two or few consecutive periods, where wrong samples and unsorted fills give the same numbers.",
  ["diagnostics.py", "prep.py"],
  [("placebo", "placebo_timing_test, placebo_group_test, permutation_test, leave_one_out_test, run_all_placebo_tests, run_placebo_test"),
   ("preparation", "make_treatment_indicator, make_post_indicator, create_event_time, balance_panel, wide_to_long, aggregate_to_cohorts, summarize_did_data, validate_did_data")],
  "the value each function returns, as a term extracted from the source, is evaluated row by row over one panel per kind of gap and order with "
  "unknown outcomes kept as symbols; refits are named by the rows, indicators and options they are given; draws stay draws",
  "A row-wise function's terms depend on labels only through equality and order, so one panel per kind of label pattern stands for all; outcomes "
  "stay symbolic, estimator calls and random draws stay opaque and are compared by what goes into them. " + COMMON)


P("C29", "TROP's effects, replicates and scores are the documented estimator",
  "For every panel, missing pattern, row order and penalties (zero and infinite included): a TROP two-step model alternates weighted means and singular "
  "value soft-thresholding over untreated observed cells, with weights exponential in the distance of periods and in the root mean squared outcome "
  "difference of units over periods where both are untreated and observed, the target period left out; the effect of every treated cell "
  "is its outcome minus that cell's own prediction, the ATT their mean, and reported unit, period and factor parts the means over treated cells. The joint "
  "method is weighted least squares with one effect and the documented weights, alternated with soft-thresholding. A replicate's estimate is the same "
  "estimator of the replicate's panel, whatever was fitted before; the jackknife leaves out one treated unit at a time; the selection score leaves "
  "out one control cell at a time and the penalties used are those with the smallest score, an infinite distance penalty meaning no weighting and an infinite "
  "rank penalty no factors. Counts, periods and selected penalties are those of the data and the search.",
  ["inputs", "configurations"], "for all panels, missing cells and penalties",
  "Tests check approximate recovery on simulated balanced panels with loose tolerances; a weight taken at the wrong distance stays within them.",
  ["trop.py"],
  [("two-step", "TROP.fit, _estimate_model, _compute_observation_weights, _weighted_nuclear_norm_solve, _soft_threshold_svd"),
   ("joint", "TROP._fit_joint, _compute_joint_weights, _solve_joint_no_lowrank, _solve_joint_with_lowrank"),
   ("replicates and scores", "TROP._fit_with_fixed_lambda, _jackknife_variance, _loocv_score_obs_specific, _univariate_loocv_search, _loocv_score_joint, _jackknife_variance_joint")],
  "array terms extracted from the source compared with the documented expressions at exact generic points, exp, square root and singular value "
  "decomposition uninterpreted",
  "Each quantity's term, calls and loops inlined, is compared with the documented expression as a rational expression in the panel's entries and in "
  "uninterpreted values of exp, root and SVD, at generic points over panels with different starts, gaps and penalties; two passes of each alternation. " + COMMON)

# ---- properties no sound static argument in reach can settle
N("N01", "Estimates match the reference implementations in R to their stated tolerance",
  "For any data set accepted by both, each estimator's effects and standard errors agree with the R packages named in the methodology "
  "registry (did, fixest, synthdid, HonestDiD, bacondecomp, triplediff) within the tolerance given there.",
  ["inputs"], "for all data sets", "Tests compare a handful of benchmark data sets.", ["staggered.py", "sun_abraham.py", "synthetic_did.py"],
  [("estimators", "every fit")],
  "the other side of the equality is another program's floating-point output; agreement within a tolerance is a runtime quantity. What is "
  "decidable from the source - which comparisons, designs, weights and formulas are used - is claimed in C18, C19 and C20")
N("N02", "Confidence intervals cover the true effect at the nominal rate",
  "Over repeated samples from a population satisfying the identifying assumptions, each 1 - alpha interval contains the true effect with "
  "probability approaching 1 - alpha, and tests of a true null reject with probability approaching alpha.",
  ["inputs"], "for all data-generating processes with parallel trends",
  "Simulation tests sample a few processes with Monte Carlo noise.", ["utils.py", "staggered.py"],
  [("inference", "standard errors and intervals of every fit")],
  "a statement about sampling distributions; the source determines the formula (C13-C17), not its coverage")
N("N03", "Iterative weight searches reach the minimiser of their stated objective",
  "SyntheticDiD's unit and time weights minimise the penalised pre-treatment misfit over the simplex, and TROP's tuning constants minimise "
  "the leave-one-out error over the grid (or the coordinate search's limit), within the stated tolerance and iteration limit.",
  ["inputs"], "for all panels", "Tests check that weights sum to one on small panels.", ["utils.py", "synthetic_did.py", "trop.py"],
  [("projected gradient", "utils.compute_synthetic_weights"), ("leave-one-out search", "TROP._loocv_score_obs_specific and grid search")],
  "convergence of an iteration depends on the data's conditioning and floating point; no static bound is in reach")
N("N04", "Compiled and Python backends give the same numbers",
  "With the compiled backend present every result equals the pure Python result to floating-point accuracy.",
  ["inputs", "configurations"], "for all inputs", "Equivalence tests sample a few arrays, and are skipped where the backend is not built.",
  ["linalg.py", "utils.py", "trop.py"], [("backend switch", "diff_diff._backend")],
  "the two sides are floating-point kernels in different languages (faer/ndarray against LAPACK); equality up to rounding is a runtime "
  "quantity, and the compiled extension is not part of the build here. The seeds handed to it are covered by C04")
N("N05", "Within-transformation and solvers stay accurate on ill-conditioned data",
  "Estimates change by no more than the condition number warrants when outcomes or covariates are shifted or rescaled, and rank detection "
  "drops exactly the linearly dependent columns.",
  ["inputs"], "for all data scales", "Tests use well-scaled simulated data.", ["linalg.py", "utils.py"],
  [("pivoted QR rank detection", "linalg._detect_rank_deficiency"), ("demeaning", "utils.within_transform")],
  "a bound on floating-point error over all inputs is a numerical analysis statement outside this family")
N("N06", "Honest bounds widen with M and contain the original interval at M = 0",
  "The robust interval of HonestDiD is monotone in M, equals the original one when no violation is allowed, and contains every effect "
  "compatible with the restriction.",
  ["inputs"], "for all event studies and M", "Tests check a grid of M on a few event studies.", ["honest_did.py"],
  [("bounds", "honest_did._compute_flci, _solve_bounds_lp")],
  "follows from optimality of linear programs solved at run time (scipy.optimize.linprog) and from a critical value computed by numerical "
  "search; the form of the reported interval and its level are covered by C13")
N("N07", "Doubly robust estimates stay consistent when one nuisance model is wrong",
  "CallawaySantAnna and TripleDifference with estimation_method='dr' recover the effect if either the outcome or the propensity model is "
  "correctly specified.",
  ["inputs"], "for all populations", "Simulation tests sample one or two misspecifications.", ["staggered.py", "triple_diff.py"],
  [("doubly robust moments", "CallawaySantAnna._doubly_robust, TripleDifference._doubly_robust")],
  "a large-sample statement about populations; nothing in the source bounds it")
N("N08", "Memory and time stay proportional to the data",
  "Fits of n observations and B replicates finish in time and memory documented as suitable for large panels (chunked bootstrap weights, "
  "vectorised influence functions).",
  ["inputs"], "for all panel sizes", "Tests run small panels.", ["staggered_bootstrap.py", "linalg.py"],
  [("batched bootstrap", "staggered_bootstrap")],
  "cost depends on library internals and data; no resource bound is derivable from the Python source")
