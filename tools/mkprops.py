"""Generates /verif/properties.jsonl (kept in git; run after editing the table)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
SM = "smt/surrogate_models/"
p("C01", "Retraining a surrogate equals training a fresh one",
  "After any sequence of set/update of training data, option changes, train and predict calls, a surrogate that is trained gives the same values, derivatives, variances and output derivatives as a newly built surrogate with the same user-chosen options trained once on the final data. This holds when the number of points, inputs or outputs changes between trainings and when train is called twice in a row.",
  ["histories", "configurations"], "every surrogate model, every sequence (up to a depth) of set_training_values/set_training_derivatives/update_training_values/train/predict/option-change operations",
  "Tests train each object once; a stale cache, a resized option or a counter left over from an earlier training only shows on the second use of one object.",
  [SM+f for f in ("surrogate_model.py","krg_based.py","kpls.py","kplsk.py","gekpls.py","mgp.py","idw.py","rbf.py","rmts.py","rmtb.py","rmtc.py","ls.py","qp.py","genn.py")] + ["smt/applications/mfk.py","smt/applications/moe.py"],
  [("training_points replaced per name/kx, model state recomputed in _train", SM+"*.py")], ["predict_values","predict_derivatives","predict_variances","predict_output_derivatives"])
p("C02", "Predictions are pure, row-wise functions of the query point",
  "For a trained model, the prediction at a point does not depend on the other rows of the query, their order, their number or their duplication, nor on which prediction calls were made before; it always has shape (n, ny). Prediction never changes what the model later predicts.",
  ["histories", "inputs", "configurations"], "every surrogate and application, every grouping/permutation of query rows and every interleaving of prediction calls up to a bound, including batches that cross internal block sizes",
  "Tests predict one batch once; block-boundary, single-row and interleaving effects need all groupings.",
  [SM+f for f in ("surrogate_model.py","krg_based.py","kpls.py","mgp.py","idw.py","rbf.py","rmts.py","genn.py")] + ["smt/utils/kriging_utils.py","smt/applications/moe.py","smt/applications/mfk.py"],
  [("_predict_* methods operate per row; kernels process rows in blocks", "smt/utils/kriging_utils.py")], ["predict_*"])
p("C03", "Setting new data without training never corrupts predictions",
  "Between setting (or updating) training data and the next train call, a prediction either returns exactly what the last trained model predicts or raises an exception; it never returns a value mixing old and new data and never crashes the process.",
  ["histories", "configurations"], "every surrogate, every pair of (trained data, newly set data) over a lattice of sizes and every prediction kind",
  "No test predicts between set_training_values and train.",
  [SM+f for f in ("surrogate_model.py","idw.py","rbf.py","rmts.py","krg_based.py","ls.py","qp.py")],
  [("shape attributes nt/nx/ny vs trained state", SM+"surrogate_model.py")], ["predict_*"])
p("C04", "Caller-owned data is never modified or aliased",
  "No public operation modifies the arrays, lists, dictionaries or option values passed in by the caller, and changing a caller's array after a set/train call has no effect on the model. Option values read back after use are those the user set.",
  ["histories", "inputs", "configurations"], "every public class (surrogates, sampling, EGO, MOE, VFM, mixed-integer, NestedLHS), every array argument in C/Fortran/strided/integer layout",
  "Tests never compare arguments before and after a call.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"kplsk.py", SM+"rmts.py", SM+"rbf.py", "smt/sampling_methods/full_factorial.py", "smt/applications/vfm.py", "smt/applications/ego.py", "smt/applications/mixed_integer.py"],
  [("copies taken at the API boundary", SM+"surrogate_model.py")])
p("C05", "predict_derivatives and variance derivatives match the predictor",
  "Wherever a model claims support, predict_derivatives(x, kx) is the partial derivative of predict_values with respect to input kx, and predict_variance_derivatives is the gradient of predict_variances, for every input index, number of inputs and outputs, and option choice for which the call does not raise.",
  ["inputs", "configurations"], "all surrogates x options x nx x ny x kx x query points of a lattice where the predictor is differentiable",
  "test_derivs samples a few models on one function with loose tolerance and ny=1.",
  [SM+f for f in ("krg_based.py","idw.py","rbf.py","rmts.py","ls.py","qp.py","genn.py","mgp.py")] + ["smt/utils/kriging_utils.py","smt/src/idw/idw.cpp","smt/src/rbf/rbf.cpp","smt/src/rmts/rmtb.cpp","smt/src/rmts/rmtc.cpp","smt/applications/vfm.py","smt/applications/mfk.py"],
  [("analytic derivative code per model", SM)], ["predict_derivatives","predict_variance_derivatives"])
p("C06", "predict_output_derivatives is the exact sensitivity to training outputs",
  "For models supporting output derivatives, the returned arrays times any perturbation of the training outputs equals the change of the prediction after retraining on the perturbed outputs.",
  ["inputs", "configurations"], "IDW, RBF, RMTB, RMTC with every option combination, every unit perturbation of the training outputs",
  "test_output_derivs uses finite differences on two configurations with loose tolerance.",
  [SM+f for f in ("idw.py","rbf.py","rmts.py")], [("_predict_output_derivatives", SM+"rmts.py")], ["predict_output_derivatives"])
p("C07", "Kriging predictor and variance follow the universal-Kriging formulas",
  "With the correlation parameters it reports, a trained Kriging model (KRG, KPLS, KPLSK) predicts the mean and the mean squared error given by the textbook universal-Kriging equations for the chosen correlation, trend, nugget and noise. Hence it interpolates noise-free data, has zero variance there, and never reports a negative variance.",
  ["inputs", "configurations"], "all correlation x trend x dimension x number of outputs x noise option combinations over a lattice of small designs",
  "Tests check rms errors on a few functions; a wrong term in one kernel/trend/noise combination stays within their tolerances.",
  [SM+"krg_based.py", SM+"krg.py", SM+"kpls.py", SM+"kplsk.py", "smt/utils/kriging_utils.py"],
  [("_reduced_likelihood_function, _predict_values, _predict_variances", SM+"krg_based.py"), ("correlation and regression functions", "smt/utils/kriging_utils.py")])
p("C08", "The likelihood objective and its gradient are correct",
  "The objective that Kriging training hands to its optimizer is the (negative) concentrated log-likelihood of the data up to strictly increasing transformation, and the gradient it hands over is the derivative of that objective, for every correlation function, trend and noise option that accepts the gradient-based optimizer.",
  ["inputs", "configurations"], "all correlations x trends x KRG/KPLS/MFK/MGP x a lattice of hyperparameter values",
  "One test compares the gradient at a handful of points for KRG only.",
  [SM+"krg_based.py", SM+"mgp.py", "smt/utils/kriging_utils.py"],
  [("_reduced_likelihood_gradient/_hessian", SM+"krg_based.py")])
p("C09", "Hyperparameter search keeps the best candidate whatever the optimizer does",
  "For every pattern of outcomes of the underlying numerical optimizer (converged, stopped early, failed, raised ValueError, non-finite objective), Kriging training either ends with a usable model whose parameters lie within bounds and whose likelihood is at least that of every candidate the optimizer returned, or raises an error; it never silently keeps a worse or half-built model.",
  ["fault_sequences", "configurations"], "all sequences of optimizer outcomes over the multi-start runs, for each optimizer option and noise setting",
  "Tests only see the outcomes the real optimizer happens to produce on smooth data.",
  [SM+"krg_based.py", SM+"kplsk.py", SM+"mgp.py"], [("_optimize_hyperparam retry and multistart loop", SM+"krg_based.py")])
p("C10", "LS, QP, IDW and RBF compute their defining formulas",
  "LS and QP return the least-squares linear and quadratic polynomial of the data; IDW returns the inverse-distance weighted average and the exact training value at a training point; RBF with no regularisation interpolates the data and reproduces polynomials up to the chosen degree.",
  ["inputs", "configurations"], "all data sets on a small lattice and all option values, one or several outputs",
  "Tests check rms error on one function.",
  [SM+f for f in ("ls.py","qp.py","idw.py","rbf.py")] + ["smt/src/idw/idw.cpp","smt/src/rbf/rbf.cpp"], [("_train/_predict_values", SM)])
p("C11", "RMTS splines are the claimed tensor-product spline",
  "Inside xlimits an RMTB prediction is a tensor-product B-spline and an RMTC prediction a C1 piecewise-cubic with the configured numbers of control points/elements; outside, it is the configured extrapolation joined continuously. Training solves the regularised least-squares problem, so the result does not depend on the solver, line search, gradient mode or derivative solver chosen, and constant or linear data are reproduced.",
  ["inputs", "configurations"], "all option combinations (order, control points, elements, solver, extrapolate, approx_order) over small dimensions, query points in every cell, on every cell boundary and outside",
  "Tests run three default configurations on smooth functions; boundary knots and extrapolation cells are hit by measure-zero inputs.",
  [SM+"rmts.py", SM+"rmtb.py", SM+"rmtc.py", "smt/src/rmts/rmtb.cpp", "smt/src/rmts/rmtc.cpp", "smt/src/rmts/utils.cpp"], [("basis evaluation and energy terms", "smt/src/rmts")])
p("C12", "Linear solvers and line searches meet their contracts",
  "Every linear solver returns a solution of the system it was set up with, for every right-hand-side column and every setup/solve sequence, agreeing with a direct solve to its tolerance. Every line search returns a step that satisfies its decrease condition or leaves the point unchanged, for every convex or non-convex one-dimensional profile, and terminates.",
  ["inputs", "histories", "configurations"], "all solvers x small matrices x right-hand sides x setup/solve orders; all line searches x a lattice of 1-D profiles",
  "Solvers are only exercised through one RMTS problem.",
  ["smt/utils/linear_solvers.py", "smt/utils/line_search.py"], [("_setup/_solve", "smt/utils/linear_solvers.py"), ("LineSearch.__call__", "smt/utils/line_search.py")])
p("C13", "The training cache is transparent and crash-safe",
  "With data_dir set, every model trained gives the same predictions and supports the same calls as with no cache, whatever files the directory already holds: entries from other data or options, files truncated or corrupted at any byte by an interrupted writer, or files being rewritten by another process. Without data_dir no cache file is read or written.",
  ["crash_points", "histories", "schedules"], "all truncation points and all single-write torn states of each cache file, all interleavings of two processes' cache file operations, all orders of training different data in one directory",
  "Caching is exercised by no test that interrupts a writer or shares a directory.",
  ["smt/utils/caching.py", SM+"rmts.py", SM+"rbf.py", SM+"idw.py", SM+"ls.py", SM+"qp.py"], [("cached_operation", "smt/utils/caching.py")])
p("C14", "Native kernels never touch memory out of bounds",
  "No sequence of accepted public API calls (set, train, predict values/derivatives/output derivatives, with any sizes, options and query points, finite or not) makes the IDW, RBF or RMTS native code read or write outside its buffers or use uninitialised or freed memory.",
  ["histories", "inputs", "configurations"], "all operation sequences and shapes up to a bound under a memory-error monitor",
  "An out-of-bounds access usually returns a plausible number; tests have no monitor.",
  ["smt/src/idw", "smt/src/rbf", "smt/src/rmts", SM+"idw.py", SM+"rbf.py", SM+"rmtb.py", SM+"rmtc.py"], [("array sizes passed from Python to C++", "smt/src/*/*.pyx")])
p("C15", "Options accept exactly the declared values",
  "An option reads back exactly the last valid value set, can only be set if declared, and rejects with an error every value outside its declared values/types while leaving the previous value in place; clones are independent. Every class accepts each documented option value and rejects unknown option names.",
  ["histories", "inputs"], "all sequences of declare/set/update/clone/read up to a depth over a small universe of names and values; all public classes",
  "Tests cover a few fixed sequences.",
  ["smt/utils/options_dictionary.py"], [("OptionsDictionary", "smt/utils/options_dictionary.py")])
p("C16", "Support flags are truthful and invalid input is rejected",
  "A model whose support flag for an operation is True performs it and returns arrays of the documented shape; if the flag is False the operation raises NotImplementedError. Training or query arrays with inconsistent shapes or non-array type raise ValueError before any state changes, for every public method.",
  ["inputs", "configurations"], "every surrogate/application x every operation x every malformed shape of a lattice",
  "Tests check a few error cases.",
  [SM+"surrogate_model.py", "smt/utils/checks.py", "smt/applications/mfk.py", "smt/applications/moe.py", "smt/applications/vfm.py", "smt/applications/mixed_integer.py"], [("check_support/check_nx/ensure_2d_array", "smt/utils/checks.py")])
p("C17", "Sampling methods return the designs they promise",
  "LHS returns exactly nt points with exactly one in each of the nt equal slices of every dimension for every criterion; FullFactorial returns exactly nt distinct points of a regular grid that spans xlimits and has more levels where the weight is larger (the full grid when clip is set); Random returns nt points; NestedLHS returns designs of doubling sizes, each containing the next higher-fidelity one, the highest being a Latin hypercube and the other points coming from the level's own Latin hypercube; every point is within xlimits.",
  ["inputs", "configurations"], "all criteria x nt x nx x xlimits x seeds over a bounded lattice, including nt=1 and degenerate limits",
  "Tests check shapes for a few sizes.",
  ["smt/sampling_methods", "smt/applications/mfk.py"], [("LHS._ese/_maximinESE/_PhiP_exchange", "smt/sampling_methods/lhs.py")])
p("C18", "Seeded computations are reproducible and isolated from global randomness",
  "With an integer random_state (or seed), LHS, EGO and GENN return the same result on every call sequence in every process, regardless of what other components did to the global random generator. LHS with a random_state does not disturb the caller's global random stream.",
  ["histories", "configurations"], "all interleavings of other random-consuming calls around the seeded call up to a bound",
  "Tests compare one pair of runs.",
  ["smt/sampling_methods/lhs.py", "smt/applications/ego.py", SM+"krg_based.py", SM+"genn.py", "smt/applications/mixed_integer.py"], [("random_state handling", "smt/sampling_methods/lhs.py")])
p("C19", "Mixed-integer encodings are lossless and stay in the feasible set",
  "Casting an unfolded point to discrete values yields a point that is feasible (floats unchanged, ordered variables integer within limits, exactly one enum component set), casting is idempotent, and folding/unfolding are inverse on feasible points, for every mixture of variable types in any order.",
  ["inputs", "configurations"], "all type lists up to a length over FLOAT/ORD/ENUM(k), all lattice points including ties, bounds and halves",
  "Tests use one or two fixed type lists.",
  ["smt/applications/mixed_integer.py"], [("fold_with_enum_index, unfold_with_enum_mask, cast_to_discrete_values", "smt/applications/mixed_integer.py")])
p("C20", "Mixed-integer sampling, surrogates and contexts only see feasible points",
  "Mixed-integer sampling returns exactly the requested number of feasible points in the documented (folded or unfolded) form, and a mixed-integer surrogate predicts at x exactly what its underlying surrogate trained on the cast data predicts at the cast of x, for every underlying surrogate and input form.",
  ["inputs", "configurations", "histories"], "all type lists x sampling methods x surrogates x folded/unfolded forms over a lattice",
  "Tests run one mixed example.",
  ["smt/applications/mixed_integer.py", SM+"krg_based.py", "smt/utils/kriging_utils.py"], [("MixedIntegerSurrogateModel, MixedIntegerSamplingMethod, MixedIntegerContext", "smt/applications/mixed_integer.py")])
p("C21", "EGO's history is faithful and its optimum is the best point evaluated",
  "For every objective, budget and behaviour of the inner optimizer, EGO evaluates the function exactly as often as its budget says (never more often, and only less often when its inner optimizer fails), only at points within the bounds (feasible decoded points in the mixed-integer case), returns x_data/y_data in which y_data[i] is the value the function returned at x_data[i], and returns as optimum the best pair of that history.",
  ["fault_sequences", "histories", "configurations"], "all outcome patterns of the inner optimizer, all criteria, n_iter, n_parallel, qEI and start/DOE options, objectives over a lattice",
  "Tests check that one run of a benchmark gets near the optimum.",
  ["smt/applications/ego.py"], [("EGO.optimize, _find_best_point, _setup_optimizer", "smt/applications/ego.py")])
p("C22", "EGO proposes the maximiser of its infill criterion",
  "EI, SBO and UCB are the textbook functions of the surrogate's mean and variance (EI is non-negative and zero where the variance is zero), the point EGO adds is the best one returned by its multi-start search, and with several points per iteration the virtual values follow the chosen qEI rule while only real evaluations enter the final history.",
  ["inputs", "fault_sequences", "configurations"], "all criteria x qEI rules x inner-optimizer answers over a lattice of surrogate means/variances",
  "Tests check end results only.",
  ["smt/applications/ego.py"], [("EI, SBO, LCB, _get_virtual_point", "smt/applications/ego.py")])
p("C23", "Multi-fidelity Kriging is the recursive co-Kriging of its levels",
  "MFK, MFKPLS and MFKPLSK with L levels predict at each level the recursive combination rho*lower + discrepancy with the matching variance, interpolate the highest-fidelity data when noise-free, have the mean of plain Kriging with one level, and do not depend on the order in which levels were supplied.",
  ["inputs", "histories", "configurations"], "all small nested level structures x correlations x trends x rho_regr x noise options x orders of set_training_values calls",
  "Tests compare one two-level problem.",
  ["smt/applications/mfk.py", "smt/applications/mfkpls.py", "smt/applications/mfkplsk.py"], [("_predict_intermediate_values, predict_variances_all_levels", "smt/applications/mfk.py")])
p("C24", "VFM composes its low-fidelity and bridge models as specified",
  "A trained VFM predicts (and differentiates) exactly the additive or multiplicative composition of the low-fidelity model and the bridge model trained on the differences/quotients at the high-fidelity points, for every supported pair of model types, and training it leaves the option dictionaries of the caller usable for another VFM.",
  ["inputs", "configurations", "histories"], "all supported low-fidelity x bridge model pairs x bridge types x derivative options over small data",
  "Tests run one combination.",
  ["smt/applications/vfm.py"], [("VFM._apply/_train_bridge/_predict_values", "smt/applications/vfm.py")])
p("C25", "Mixture of experts selects and blends experts correctly",
  "MOE uses only enabled experts satisfying the requested capabilities, picks per cluster the expert with the smallest error on the held-out points of that cluster, assigns membership weights that are non-negative and sum to one, and predicts (and gives variances) as the smooth or hard combination of its experts, including with one cluster.",
  ["inputs", "configurations", "fault_sequences"], "all subsets of experts x smooth/hard x cluster counts x expert error patterns over small data",
  "Tests compare final errors on two functions.",
  ["smt/applications/moe.py"], [("_find_best_expert, _proba_cluster, _predict_smooth_output", "smt/applications/moe.py")])
p("C26", "GENN training optimises the stated loss on every sample",
  "The gradient GENN uses for training is the exact derivative of its regularised, gradient-enhanced loss for every topology; each epoch's mini-batches partition the training set; normalisation round-trips; predictions and derivatives use the trained parameters.",
  ["inputs", "configurations"], "all topologies, batch sizes, outputs and lambda/gamma settings up to a bound",
  "Tests check convergence on one sine wave.",
  [SM+"genn.py", "smt/utils/neural_net"], [("L_model_backward, random_mini_batches, normalize_data", "smt/utils/neural_net")])
p("C27", "Benchmark problems return consistent values and derivatives",
  "Every benchmark problem is defined on all of its xlimits, has the value of its documented or published formula, is evaluated row by row, and returns for kx the exact partial derivative of its value; wrapper problems (reduced, tensor product, N-dimensional) equal the wrapped function with the other inputs fixed as documented.",
  ["inputs", "configurations"], "all problems x dimensions x kx x lattice points of the domain",
  "test_problems runs finite differences at a few random points of some problems.",
  ["smt/problems"], [("_evaluate", "smt/problems/*.py")])
p("C28", "Reporting never influences results and survives errors",
  "Print options, timing and silencing never change any computed result, printing obeys the four print switches exactly, and after any exception raised inside a timed or silenced operation the printer's indentation and activity and the process's stdout are what they were before.",
  ["fault_sequences", "configurations", "histories"], "all print option combinations x all exception points in nested timed/silenced sections up to a depth",
  "Tests disable printing and raise nothing.",
  ["smt/utils/printer.py", "smt/utils/silence.py", SM+"surrogate_model.py"], [("Printer._timed_context, Silence", "smt/utils")])
p("C29", "Gradient-enhanced and active Kriging use exactly the data they are given",
  "GEKPLS is Kriging on the given points plus, for each, the configured number of first-order Taylor points along its dominant directions, leaving reported training data intact and refusing derivatives given at other points; MGP predicts with the embedding it reports, and its variance with uncertainty is the variance of a Gaussian process plus the published contribution of its hyperparameters (in the units of the output), never below the variance without uncertainty at a maximum of its likelihood.",
  ["inputs", "configurations"], "all extra_points/delta_x values x designs, gradient patterns, scales; all hyperparameter lattice points of MGP",
  "Tests check rms error on one or two functions.",
  [SM+"gekpls.py", SM+"mgp.py", "smt/utils/kriging_utils.py"], [("ge_compute_pls", "smt/utils/kriging_utils.py")])
p("C30", "Training is symmetric in points and independent across outputs",
  "Reordering the training points, or consistently renumbering the inputs, leaves predictions unchanged; training on several outputs at once predicts, per output, what training on that output alone (with the same hyperparameters) predicts; shifting or rescaling outputs shifts or rescales predictions and their uncertainties, and a change of the units of the inputs changes nothing else, for every surrogate that standardizes its data or is linear in it.",
  ["inputs", "configurations"], "all permutations of small training sets and inputs, all surrogates and options",
  "Tests never permute.",
  [SM, "smt/utils/kriging_utils.py"], [("standardization and per-column solves", "smt/utils/kriging_utils.py")])
p("C31", "Correlation kernels, trends and scalings match their definitions",
  "Each correlation kernel (squar_exp, abs_exp, matern32, matern52, act_exp), on plain or PLS-weighted distances, equals its documented formula (1 at distance zero, symmetric, positive semi-definite), and the derivatives it returns with respect to every hyperparameter, every pair of hyperparameters and the query point are exact, for any number of rows; the constant, linear and quadratic trends contain every monomial once; standardization is undone by the offsets and scales it returns; cross distances list every pair once; and the first-order expansion of GEKPLS has the weights, points and values that its gradients imply.",
  ["inputs", "configurations"], "all kernels x dimensions x parameter values x signed differences x numbers of rows around the internal block sizes; all small data sets",
  "Tests evaluate the kernels through one trained model on fewer rows than one block; second derivatives of most kernels are never evaluated.",
  ["smt/utils/kriging_utils.py"], [("squar_exp, abs_exp, matern52, matern32, act_exp; constant, linear, quadratic; standardization; cross_distances; ge_compute_pls", "smt/utils/kriging_utils.py")])
p("C32", "Interrupted training or prediction leaves a sound model",
  "If a library call made during the training or a prediction of any surrogate (plain, multi-fidelity, mixture, bridge, mixed-integer) fails or is interrupted, the error reaches the caller when it is an interrupt, the options, the training data and the printer are what they were, the model afterwards either refuses to predict or predicts entirely as before or as newly trained, and training again gives exactly the model that a fresh object gives.",
  ["fault_sequences", "crash_points", "histories"], "all library calls made by SMT in training and prediction x kinds of failure x training histories",
  "Tests never make a call fail.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"krg_mgp.py", "smt/applications/mfk.py", "smt/applications/moe.py", "smt/applications/vfm.py"], [("SurrogateModel.train, _check_trained_shape; _new_train_finalize; MOE.train", "smt")])
p("C33", "Threads using SMT at the same time do not disturb each other",
  "Whatever the interleaving of their steps, two threads that predict with the same trained surrogate model, train and use distinct models (also when these share a data directory or are of the same class), or draw from distinct sampling methods, each get exactly the results that they get when they run alone.",
  ["schedules", "interleavings", "configurations"], "thread schedules with one or two preemptions x pairs of operations x surrogate models and sampling methods",
  "Tests run one thread; a schedule that interferes needs a switch at a particular line.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"rmts.py", "smt/utils/caching.py", "smt/sampling_methods/lhs.py"], [("predict_* of every surrogate model; cached_operation; SamplingMethod.__call__", "smt")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for r in P:
            f.write(json.dumps(r) + "\n")
    print(len(P), max(len(r["title"]) for r in P))
