"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the table)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/mud/base.py"; F = "src/mud/funs.py"; U = "src/mud/util.py"; PL = "src/mud/plot.py"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})


p("P01", "Updated density is initial x weight x observed / predicted",
  "After fitting a density problem, the updated density of every sample equals the initial density of its parameters "
  "times its sample weight times the ratio of the observed to the predicted density of its prediction, each multi-dimensional density being the "
  "product of the distribution's values over the columns of the sample. The predicted density is the supplied distribution, or else the weighted kernel estimate "
  "of the predictions evaluated at the predictions (with the requested bandwidth).",
  ["inputs", "configurations"], "every number of samples, parameters and predictions, all sample values, all distributions and weights",
  "tests sample a handful of one-dimensional problems and check rounded results only",
  [B], [("DensityProblem.set_initial / set_observed / set_predicted / fit", B)], ["updated density, ratio"],
  [("_up, _r, _in, _pr, _ob", "density values per sample", B)])
p("P02", "The MUD point is the sample of largest updated density",
  "The MUD point of a density problem is always one of the given parameter samples, it is the whole sample (all parameters), and no other sample "
  "has a larger updated density; ties go to the earliest sample. The generic estimate of the problem is the same point, and fitting happens on demand.",
  ["inputs"], "every number of samples and parameters, all density values",
  "tests look at a few random draws; the maximiser over all samples is a universally quantified statement",
  [B], [("DensityProblem.mud_point, estimate", B)])
p("P03", "Expected ratio is the weighted average of observed / predicted",
  "The expected ratio of a density problem equals the sum over samples of weight times observed-to-predicted ratio, divided by the sum of weights, "
  "for the distributions and weights currently in force. With equal weights it is the plain mean of the ratio.",
  ["inputs"], "all ratios and weights, any number of samples",
  "tests check values rounded to 0 or 1 decimals on unweighted problems",
  [B], [("DensityProblem.expected_ratio", B)])
p("P04", "Stacked sample weights multiply; normalising scales to unit length",
  "One weight per sample results from a vector of weights (kept as given), from several stacked rows of weights (their product per sample), or from none at all (all ones); "
  "when normalisation is asked for, given weights are divided by their Euclidean norm. Weights whose number of columns is not the number of samples are rejected, "
  "and new weights discard the predicted and updated densities so that the next fit uses them.",
  ["inputs", "histories"], "all numbers of samples, of weight rows and weight values",
  "tests use one or two fixed weight vectors",
  [B], [("DensityProblem.set_weights", B)])
p("P05", "Set-up defaults: shapes, domains and uniform initial density",
  "A density problem treats one-dimensional samples or predictions as repeated values of one quantity, takes the given domain or else the bounding box of the samples padded by one tenth of "
  "the range on either side, and rejects a domain whose number of rows is not the number of parameters. Left unset, the initial (prior) distribution is uniform over the domain and the observed "
  "one is standard normal.",
  ["inputs", "configurations"], "all shapes, sample values and domains",
  "tests construct problems with a few literal shapes and domains",
  [B, U], [("DensityProblem.__init__, BayesProblem.__init__", B), ("fit_domain, set_shape", U)])
p("P06", "Posterior is prior times likelihood and MAP its maximiser",
  "In a Bayesian problem the posterior of every sample is its prior density times its likelihood, or, in log mode, the log of the prior plus the sum of log-likelihoods, and the MAP point is the full "
  "earliest sample with the largest posterior. A posterior that vanishes at every sample is reported as an error, and never one that is positive somewhere.",
  ["inputs", "configurations"], "all samples, distributions, domains, both modes",
  "tests use fixed one-dimensional identity problems",
  [B], [("BayesProblem.set_prior, set_likelihood, fit, map_point", B)])
p("P07", "No stale answers after any sequence of settings",
  "After any sequence of setting weights, initial, predicted, observed, prior or likelihood distributions, fitting and asking for results, the next estimate, expected ratio or fitted density is the one a "
  "fresh problem with the settings now in force would give. Settings discard exactly the results that depend on them, so a result is never computed from a mix of old and new settings.",
  ["histories"], "every finite sequence of public operations with any arguments, on density and Bayesian problems",
  "a test runs one sequence; the number of histories is unbounded",
  [B], [("invalidation in set_weights, set_initial, set_predicted, set_observed, set_prior, set_likelihood; recomputation in fit", B)])
p("P08", "Inputs are never modified and results do not depend on call order",
  "No constructor, setter, solver or utility changes an array, list or option dictionary handed to it, and a density or Bayesian problem keeps its own copy of the samples, predictions, domain and weights, so that later "
  "changes by the caller do not reach it. Calling a deterministic function again with the same arguments gives the same answer.",
  ["inputs", "histories"], "all arguments and all later caller actions",
  "aliasing shows up only in particular caller sequences that tests do not perform",
  [B, F, U, PL], [("np.array copies on entry; functions build new arrays", B)])
p("P09", "Linear MUD point: closed form, exact on the data, scale-free",
  "For a linear Gaussian problem A x + b = y with prior mean m and prior covariance C, the MUD point is m + C A' (A C A')^+ (y - b - A m): it does not depend on the observed covariance nor on the scale of the prior covariance, "
  "it predicts the data exactly when A C A' is invertible, and the alternative rank-k-update form coincides with it. Missing settings mean zero offset, zero data, zero mean, "
  "unit covariances and unit scale, vectors may be flat or columns, and restricting to the first k outputs equals solving the problem made of those k rows.",
  ["inputs", "configurations", "histories"], "all dimensions, matrices, vectors and scales, in any order of solves",
  "tests check small random instances with tolerances",
  [B], [("LinearGaussianProblem.__init__, solve", B)])
p("P10", "Linear MAP and least squares solve their normal equations",
  "For a linear Gaussian problem the MAP point is m + (A' R^-1 A + (a C)^-1)^-1 A' R^-1 (y - b - A m) with R the observed covariance and a the prior scale, "
  "and the reported posterior covariance is that inverse; the least-squares solution is A^+ (y - b). Repeating or reordering solves does not change any of them.",
  ["inputs", "histories"], "all dimensions, matrices, scales", "tests check single small instances",
  [B], [("LinearGaussianProblem.solve", B)])
p("P11", "Updated covariance formula and its push-forward",
  "The updated covariance is C - K (A C A' - R) K' with K = C A' (A C A')^+, with the problem's own (or unit) covariances where none are given, and its push-forward A U A' equals the observed covariance R "
  "whenever A C A' is invertible. Covariances whose size does not match the map are rejected.",
  ["inputs"], "all dimensions and matrices", "tests use literal 2x2 examples",
  [B, F], [("LinearGaussianProblem.updated_cov", B), ("updated_cov", F)])
p("P12", "Tikhonov and data-consistent functionals are the documented quadratics",
  "For every parameter sample the data term is the squared misfit A x + b - y in the inverse observed covariance, the regularisation term the scaled squared distance to the prior mean in the inverse prior covariance, "
  "and the data-consistent term the scaled squared predicted distance in the inverse predicted covariance; the Bayesian functional is the sum of the first two and the data-consistent one subtracts the third. "
  "The stand-alone norm functions compute the same quadratics for the same inputs.",
  ["inputs", "configurations"], "all samples, dimensions and matrices, each selectable term", "tests print rounded values of one example",
  [B, "src/mud/norm.py"], [("compute_functionals", B), ("full_functional, norm_* functions", "src/mud/norm.py")])
p("P13", "Functional entry points agree with the problem classes",
  "The functional entry points for linear MUD and MAP solutions, with or without covariance, return what the corresponding problem object computes for the same arguments, each argument reaching the setting it names, and a flat vector exactly when the data were flat. "
  "Settings left out take the same defaults as in the problem object.",
  ["inputs", "configurations"], "all arguments and combinations of omitted ones", "tests call a few of them with one set of arguments",
  [F], [("mud_sol, mud_sol_with_cov, map_sol, map_sol_with_cov, lin_prob", F)])
p("P14", "Iterative solves chain single-row solutions in the given order",
  "An iterative linear solve starts from the prior mean, and at each step the new estimate is the solution of the one-row problem of the next row in the given order, with that row's offset, datum and data variance, the shared prior covariance and the previous estimate as prior mean. "
  "Epochs continue from where the previous one (or previous call) ended, every chain begins with the estimate it started from, and the recorded errors are the distances of the successive estimates to the reference.",
  ["inputs", "histories"], "all matrices, orders, numbers of epochs and repeated calls",
  "tests only check approximate convergence for one matrix",
  [B, F], [("IterativeLinearProblem.solve, get_errors", B), ("performEpoch, iterate, iter_lin_solve", F)])
p("P15", "Weighted mean error functional and the problems built on it",
  "The weighted mean error of a prediction is the sum of its residuals against the data divided by the noise level and by the square root of the number of data, and mismatched lengths are rejected. "
  "The MUD helper builds a density problem whose predictions are this functional of the first requested outputs against noisy data (one column per index group when groups are given), "
  "and the MAP helper builds a Bayesian problem with a normal likelihood around the same kind of data; out-of-range numbers of observations are rejected.",
  ["inputs", "configurations"], "all predictions, data, noise levels, group splittings and numbers of observations",
  "tests check two literal inputs and rounded estimates",
  [F], [("wme, mud_problem, map_problem", F)])
p("P16", "Linear maps are aggregated to one weighted-mean row per quantity",
  "Aggregating repeated linear observations yields the row sum over observations of operator row / (noise level x sqrt(N)) and the offset minus the sum of data / (noise level x sqrt(N)), so that the aggregated residual at any parameter is the weighted mean error of the individual residuals; "
  "a one-row operator stands for N identical rows. Several quantities are stacked in order, mismatched sizes, vector noise for a repeated row, or vanishing noise levels are rejected, "
  "and the linear WME problem, the stand-alone functions and their list forms agree.",
  ["inputs", "configurations"], "all operators, data, numbers of observations and quantities",
  "tests use constant operators and data", [U, B],
  [("transform_linear_map, transform_linear_setup", U), ("LinearWMEProblem", B)])
p("P17", "Noise and tolerance helpers",
  "Noise added to a signal has the signal's shape and is independent standard-normal noise scaled by the standard deviation, reproducible exactly from the seed, and leaves the signal unchanged. "
  "The standard deviation derived from an equipment tolerance is the one for which exactly the given probability mass of a centred normal lies within the tolerance.",
  ["inputs"], "all signals of any rank, deviations, seeds, tolerances and probabilities",
  "tests use one seed and one-dimensional signals", [U], [("add_noise, std_from_equipment", U)])
p("P18", "Null space and rank decomposition",
  "The null-space basis consists of exactly those right singular vectors whose singular value is not above the tolerance (relative to the largest) together with those beyond the row count, hence orthonormal and annihilated by the matrix. "
  "The rank decomposition lists, for every k up to the smaller dimension, the sum of the k leading singular triplets, so that the last one is the matrix itself.",
  ["inputs"], "all matrices and tolerances", "tests sample a few random matrices", [U],
  [("null_space, rank_decomposition", U)])
p("P19", "Spatio-temporal problem keeps its parts consistent",
  "Whatever order its parts are set in, a spatio-temporal problem rejects, leaving itself unchanged, samples whose dimension differs from the domain, a new domain of another dimension than the samples or reference already set or not containing them, "
  "a reference that is not a point of the domain, and data whose width is not sensors times times. "
  "Left unset, the domain is the exact bounding box of the samples, sensors and times are inferred from the data, and measurements and true values are columns of length sensors times times.",
  ["inputs", "histories"], "all orders of settings, shapes and values",
  "tests set valid parts in one order", [B], [("SpatioTemporalProblem property setters", B)])
p("P20", "Sub-sampling keeps samples, times, sensors and data aligned",
  "Selecting samples, times and sensors by index or boolean masks returns parameters, times, sensors, data and measurements such that the entry for a selected sample, sensor and time is the original entry for that triple. "
  "The closest-sample queries return the whole parameter row of the (first) selected sample whose data has the smallest Euclidean distance to the measurements or true values.",
  ["inputs", "configurations"], "all shapes and combinations of masks",
  "tests use one mask on one data set", [B], [("sample_data, get_closest_to_measurements, get_closest_to_true_vals", B)])
p("P21", "Learned QoI maps are the documented projections of the residuals",
  "The density problem built from spatio-temporal data has the selected parameter samples, the problem's domain and the given sample weights, and as predictions the scaled residuals (measurement minus data over noise level, times the normalised data weights when given) "
  "either summed and divided by the square root of the number of observations, or projected on the leading principal components or right singular vectors, in order. Data weights of the wrong length and unknown methods are rejected.",
  ["inputs", "configurations"], "all shapes, masks, weights, numbers of components",
  "tests run it on one data set and check the type of the result", [B], [("SpatioTemporalProblem.mud_problem", B)])
p("P22", "Loading data sets every field from the right source",
  "Loading a data set stores under each field the entry of that name, the entry under the alternative name given for it, or the explicit value given in its place, and leaves fields absent from both unset; synthetic measurements are the true values plus seeded noise of the recorded level. "
  "The one-call data-constructed solve builds, initialises and solves the very problem these settings describe.",
  ["inputs", "configurations"], "all combinations of present, renamed, explicit and missing fields",
  "tests load one file layout", [B, F],
  [("SpatioTemporalProblem.load, measurements_from_reference", B), ("data_prob", F)])
p("P23", "PCA and SVD pre-processing standardise first",
  "The principal-component and singular-value transforms act on the column-standardised data, return as many components as requested and the full set of singular vectors respectively, pass extra options on, and reject data that is not two-dimensional. "
  "The input data is left unchanged.",
  ["inputs"], "all two-dimensional data, numbers of components and options",
  "tests use the 2x2 identity", ["src/mud/preprocessing.py"], [("pca, svd", "src/mud/preprocessing.py")])
p("P24", "Meshes enumerate their grids and plots show what they name",
  "Mesh helpers return every grid point exactly once, in an order consistent with the returned coordinate arrays, over the requested window or domain. "
  "The curve drawn for a distribution over a chosen coordinate is the marginal of that distribution along that coordinate over the grid (sum over the other coordinates), scaled to unit integral unless it is a likelihood or push-forward of a Bayesian problem, against that coordinate's values; "
  "two-dimensional plots show the chosen columns or sensors, solution points and chain steps asked for, contours of a linear map run through the reference point along the null space of their row, time-series plots show one sensor's measurements and sample curves against the selected times, figures are saved under the name given, and options given reach the curve they are for and stay unchanged.",
  ["inputs", "configurations"], "all domains, resolutions, distributions and coordinates of solved problems",
  "tests only check that plotting runs", [PL, U, B], [("build_nd_mesh_grid, plot_dist, make_2d_*_mesh", PL), ("plot_param_space, plot_obs_space, plot_contours, plot_sol, plot_chain", B)])
p("P25", "Example drivers and CLI pass on what they are given",
  "Every documented option of the example drivers and command-line commands reaches the computation it names: numbers of samples, seeds, noise levels, true values and file names are the ones used. "
  "Synthetic data are drawn from the documented distributions, and a fixed seed reproduces the run.",
  ["inputs", "configurations"], "all option values",
  "tests run each command once with defaults", ["src/mud/examples/", "src/mud/cli.py"],
  [("example builders and click commands", "src/mud/examples/")])

CLAIMED = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        i = x["id"]
        if i in CLAIMED:
            level, note = CLAIMED[i]
            checks.append({"property": i, "quick_cmd": f"python3-vt -m pyvc.check {i}",
                           "thorough_cmd": f"VERIF_TIER=thorough python3-vt -m pyvc.check {i}",
                           "evidence_file": f"evidence/{i}.json",
                           "technique": "contracts on the real functions, verification conditions by symbolic execution of the source, discharged by normalisation / z3 / cvc5" + (" and Lean lemmas" if i in LEAN else ""),
                           "level": level, "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(i, "no contract has been built for it yet")})
    m = {"version": 1, "setup_cmd": "python3-vt -m pyvc.selftest", "checks": checks, "not_applicable": na,
         "notes": "Properties are decided by pyvc (see DESIGN.md): contracts in contracts/, verifier in pyvc/, lemmas in lean/."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
