#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, symbols=None, mech=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files}
    if not mech: mech = [(y, ", ".join(files)) for y in (symbols or ["the code in these files"])]
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": a}
    if mech: d["anchors"]["mechanism"] = [{"name": n, "where": w} for n, w in mech]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

CD, BCD = "src/solvers/anderson_cd/mod.rs", "src/solvers/anderson_bcd/mod.rs"
HP, EST = "src/estimators/hyperparams.rs", "src/estimators/estimators.rs"
SOL = "src/solvers/impl_solver.rs"
DM, DFS, DFM = "src/datasets/impl_design_matrix.rs", "src/datafits/single_task/mod.rs", "src/datafits/multi_task/mod.rs"
PS, PB, UT = "src/penalties/separable/mod.rs", "src/penalties/block_separable/mod.rs", "src/utils/mod.rs"
PY = "python/sparseglm/estimators.py"
PYRS = ["python/src/lasso.rs", "python/src/mtl_lasso.rs", "python/src/mcp.rs", "python/src/block_mcp.rs",
        "python/src/elastic_net.rs", "python/src/multi_task_elastic_net.rs", "python/src/lib.rs"]

# ------------------------------------------------------------------ hyper-parameters
prop("H01", "A hyperparameter set by the user is used unchanged, in its own role",
 "For every estimator and for the generic solver, on dense and on sparse data, the value the user last set for a hyperparameter is exactly the value the optimisation runs with in that role: penalty strength, mixing ratio or shape, iteration budget, epoch budget, starting working-set size, tolerance, number of extrapolation points, acceleration flag and verbosity flag. Setting one hyperparameter never changes another, whatever the order in which they are set.",
 ["inputs", "configurations"], "every estimator, every combination and order of builder calls, every value, dense and sparse data",
 "The tests set only alpha (and l1_ratio/gamma through penalties) and compare one solution; two swapped integer budgets or a setter that has no effect leave those solutions unchanged.",
 [HP, EST, SOL], ["*Params setters", "Fit::fit", "Solver::solve", "Solver::solve_multi_task"],
 [("builder setters and getters", HP), ("positional hand-over to the solver", EST)])
prop("H02", "Fitting rejects exactly the invalid hyperparameters, with the right error",
 "Fitting or checking an estimator fails exactly when the penalty strength or the tolerance is negative or not a number, the mixing ratio is outside [0, 1] or not a number, the MCP shape (single-task and block) is below 1 or not a number, or the number of extrapolation points or the starting working-set size is zero. The error names an offending hyperparameter and carries its value, and no optimisation runs; every other setting is accepted.",
 ["inputs", "configurations"], "every hyperparameter value (including not-a-number and infinities) of every estimator, in every combination",
 "No test exercises a rejected hyperparameter at all.",
 [HP, "src/estimators/param_guard.rs", "src/estimators/error.rs"], ["ParamGuard::check_ref", "ParamGuard::check", "Fit for ParamGuard"],
 [("check_ref comparison chains", HP), ("blanket Fit checks first", "src/estimators/param_guard.rs")])

prop("H03", "Hyperparameters left unset take their documented defaults",
 "A hyperparameter the user does not set reaches the optimisation with its documented default, whatever others are set: penalty strength 1, shape 3, mixing ratio 0.5, 50 iterations, 1000 epochs, starting working-set size 10, 5 extrapolation points, acceleration and verbosity on, and a tolerance of 1e-6 for the Rust estimators (from their params function as from new and Default), 1e-8 for the generic solver and 1e-9 for the Python estimators (whose penalty strength, shape and mixing ratio have no default).",
 ["configurations"], "every estimator and constructor of a parameter set, the generic solver, every Python class; every subset of settings left out",
 "The tests set the tolerance, the budgets or the verbosity they need, and the solution of an easy problem is the same under another default.",
 [HP, EST, SOL, PY], ["*Params::new", "Default for Solver", "*.__init__"],
 [("parameter sets built by new", HP), ("Default for Solver", SOL), ("keyword defaults", PY)])

# ------------------------------------------------------------------ solver
prop("S01", "The solver stops early only on a certified optimality violation",
 "Both solvers return before their outer iteration budget is spent only if the largest optimality violation, over all features and at the very coefficients returned, is at most the tolerance. Closing a working-set subproblem early never ends the whole optimisation, and a subproblem that spans every feature is not closed early while its violation exceeds the tolerance; any other subproblem is closed early only once its violation is at most the tolerance or the violation its iteration started from.",
 ["inputs", "configurations"], "every dataset, datafit, penalty, tolerance and budget",
 "Tests look at the solution of a few well-conditioned problems; a stop decided on a stale, partial or wrongly compared violation still converges there.",
 [CD, BCD], ["coordinate_descent", "block_coordinate_descent", "opt_cond_violation"],
 [("kkt_max <= tolerance break of the outer loop", CD), ("inner early exit", CD)])
prop("S02", "Acceleration is adopted only if it lowers the objective",
 "An extrapolated point replaces the current coefficients only if its objective, datafit plus penalty evaluated at the extrapolated coefficients and at the model fit of those coefficients, compares lower than the objective of the current point. The coefficients and the model fit are then replaced together; a singular system or an objective that is not a number leaves both untouched.",
 ["inputs"], "every dataset, datafit, penalty and every sequence of past iterates",
 "The unit tests never reach a step where extrapolation would increase the objective or yield not-a-number.",
 [CD, BCD], ["anderson_accel"], [("p_obj_acc < p_obj", CD)])
prop("S03", "The model fit always matches the coefficients",
 "Whenever the solvers evaluate a gradient, an objective or an optimality violation, the model fit they use is the design matrix times the current coefficients. Every change of a coefficient is accompanied by the matching rank-one change of the model fit, for that feature and by that amount, in single- and multi-task problems, dense and sparse.",
 ["inputs", "histories"], "every dataset and every sequence of coordinate updates and extrapolations",
 "A drift between model fit and coefficients needs particular update sequences; tests only see a few final solutions.",
 [CD, BCD, DM], ["coordinate_descent", "block_coordinate_descent", "update_model_fit", "update_model_fit_multi_task", "compute_extrapolated_fit"])
prop("S04", "The working set keeps the support and the worst violators",
 "Each subproblem contains every feature whose coefficient is non-zero, and fills its remaining places with the features of largest optimality violation, in decreasing order and without duplicates. Its size is the larger of the starting size (capped at the number of features) and the smaller of twice the number of non-zero features and the number of features.",
 ["inputs", "histories"], "every dataset, coefficient vector, violation vector and starting size",
 "Tests never inspect the working set; dropping a non-zero feature or sorting the wrong way only slows or silently corrupts particular problems.",
 [CD, BCD, UT], ["construct_ws_from_kkt", "argsort_by"])
prop("S05", "Iteration and epoch budgets bound the work; fitting always terminates",
 "A fit runs at most max_iterations working-set subproblems, each of at most max_epochs passes, and one pass updates each feature of the working set at most once; a zero iteration or epoch budget returns all-zero coefficients. No loop or recursion reachable from a fit is without such a bound.",
 ["inputs", "configurations"], "every dataset (including ones on which nothing converges), every budget",
 "Termination for all inputs cannot be sampled; the tests converge long before any budget.",
 [CD, BCD, UT], ["coordinate_descent", "block_coordinate_descent", "solve_lin_sys"])
prop("S06", "Verbosity never changes the result, and silence is silent",
 "The fitted coefficients do not depend on the verbosity flag. With verbosity off, a fit writes nothing to standard output or standard error.",
 ["inputs", "configurations"], "every dataset, estimator and configuration",
 "All tests run with the default verbosity and never compare or capture output.",
 [CD, BCD], ["coordinate_descent", "anderson_accel"])
prop("S07", "Fitting is a pure function of data and hyperparameters",
 "A fit reads nothing but its dataset and hyperparameters: no random numbers, clock, environment, files, threads or global state can influence the coefficients. It never modifies the dataset or the estimator configuration, and the library contains no unsafe code.",
 ["inputs", "schedules", "histories"], "every dataset, configuration, process state and concurrent use",
 "Purity is a statement about all runs and environments; tests see a handful of runs in one environment.",
 ["src/solvers", "src/datafits", "src/datasets", "src/penalties", "src/estimators", "src/utils/mod.rs"])
prop("S08", "A datafit object can be reused: each solve starts from fresh state",
 "Solving with a datafit that was previously initialised on another dataset gives the same result as solving with a new one: every cached quantity is recomputed in full from the dataset at hand before it is used, for every datafit and for dense and sparse data. A solve always starts from zero coefficients and a zero model fit.",
 ["histories", "inputs"], "every sequence of solves sharing a datafit, with datasets of any shapes",
 "Every test constructs a new datafit per solve.",
 [DFS, DFM, CD, BCD], ["Datafit::initialize", "MultiTaskDatafit::initialize"])
prop("S09", "Every coordinate update is the proximal gradient step of its feature",
 "A coordinate update replaces a feature's coefficient (or row) by the proximal operator of the penalty, with step 1/L, at the coefficient minus gradient/L, where gradient and curvature constant L belong to that same feature and the current model fit. A feature whose curvature constant is zero (an all-zero column) is left untouched, so no division by zero can enter the coefficients this way.",
 ["inputs", "histories"], "every dataset (including all-zero columns), datafit, penalty and state",
 "Tests use random dense columns and compare converged solutions only.",
 [CD, BCD], ["coordinate_descent", "block_coordinate_descent"])
prop("S10", "Extrapolation combines exactly the last iterates of the working set",
 "With K extrapolation points, an extrapolation is attempted exactly at every (K+1)-th pass of a subproblem; it stores the working-set coefficients of each pass, forms the K successive differences, solves the K-by-K system of their inner products with a right-hand side of ones, and combines the first K stored iterates with the solution normalised to sum to one. Features outside the working set get extrapolated coefficient zero.",
 ["inputs", "configurations"], "every working-set size (also smaller than K), K, number of tasks and history of iterates",
 "A wrong combination only slows convergence, or fails for working sets smaller than K, which no test with one task exercises.",
 [CD, BCD, UT], ["anderson_accel", "solve_lin_sys"])

# ------------------------------------------------------------------ mathematics
prop("M01", "Single-task penalties: the proximal operators are the documented closed forms",
 "In real arithmetic, for every input, step size and admissible hyperparameters, the proximal operators of the L1, L1+L2, MCP and L0.5 penalties are the documented closed forms: soft-thresholding at alpha*step; soft-thresholding at l1_ratio*alpha*step divided by 1+step*(1-l1_ratio)*alpha; firm thresholding; and the cosine formula with its zero region. The operator at zero is zero, also for zero penalty strength.",
 ["inputs"], "every real input, step size and admissible hyperparameter",
 "Tests compare three inputs for three hyperparameters per penalty; whole regions (the middle MCP zone, small inputs, boundaries) are unvisited.",
 [PS, UT], ["Penalty::prox", "soft_thresholding", "prox_05"])
prop("M02", "Block penalties: the proximal operators are the documented closed forms",
 "In real arithmetic, for every input row, step size and admissible hyperparameters, the proximal operators of the L21, block L1+L2 and block MCP penalties scale the row by the documented factor of its Euclidean norm: block soft-thresholding, block soft-thresholding followed by the ridge division, and block firm thresholding. The operator at the zero row is the zero row, also for zero penalty strength.",
 ["inputs"], "every row of any length, step size and admissible hyperparameter",
 "Three rows per hyperparameter are tested, none in the middle MCP zone, none zero.",
 [PB, UT], ["MultiTaskPenalty::prox", "block_soft_thresholding"])
prop("M03", "The optimality violation is the distance to the penalty subdifferential",
 "For every penalty (L1, L1+L2, MCP, L0.5, L21, block L1+L2, block MCP), the violation reported for each feature of the given working set is, in real arithmetic, the distance between the negative gradient and the subdifferential of the penalty at that feature's coefficient (or row), for zero and non-zero coefficients and every region of the non-convex penalties. The reported maximum is the largest of these distances.",
 ["inputs"], "every coefficient vector or matrix, gradient, working set and admissible hyperparameters",
 "The tests use one coefficient matrix with no zero entry and hyperparameters that leave whole branches unvisited.",
 [PS, PB], ["Penalty::subdiff_distance", "MultiTaskPenalty::subdiff_distance"])
prop("M04", "Penalty values are the documented formulas",
 "In real arithmetic the penalty value is, for every coefficient vector or matrix and admissible hyperparameters, the documented formula of the L1, L1+L2, MCP, L0.5, L21, block L1+L2 and block MCP penalties.",
 ["inputs"], "every coefficient vector or matrix and admissible hyperparameter",
 "One vector or matrix per penalty is tested, all of its entries in one region.",
 [PS, PB], ["Penalty::value", "MultiTaskPenalty::value"])
prop("M05", "Datafit values, gradients and curvature constants agree with each other",
 "In real arithmetic, for every dataset and model fit, the quadratic, multi-task quadratic and logistic datafits return the documented objective (mean over samples), the partial derivative of exactly that objective with respect to each coefficient (row), and the curvature constants of that objective (squared column norm over n, or over 4n for logistic). The full gradient stacks the partial derivatives of all features in order.",
 ["inputs"], "every dataset, model fit and feature",
 "Tests compare one small dataset per datafit; scaling in n, signs on unvisited entries and other features are unchecked.",
 [DFS, DFM, UT], ["Datafit", "MultiTaskDatafit", "sigmoid"])
prop("M06", "Sparse and dense design matrices give the same results",
 "A CSC design matrix and the dense matrix it represents give, in real arithmetic, the same number of features, initialisation, gradients, objective values, model-fit updates, extrapolated fits and largest useful penalty strength, for single- and multi-task problems.",
 ["inputs"], "every valid CSC matrix (empty columns, any sparsity pattern) and every target, coefficient and working set",
 "The tests compare two or three fixed small matrices, with single entries per column.",
 [DM, DFS, DFM, UT, "src/datasets/csc_array.rs"], ["DesignMatrix for CSCArray", "DesignMatrix for ArrayBase", "compute_alpha_max_sparse"])
prop("M07", "The helper for the largest useful penalty strength is exact",
 "The helpers return, in real arithmetic and for every dataset, the largest absolute value (single-task) or largest row norm (multi-task) of X'y, divided by the number of samples; this is true of the dense, sparse and multi-task helpers of the library and of the Python helper.",
 ["inputs"], "every design matrix and target",
 "The helper is used by tests only to choose an alpha.",
 [UT, "python/sparseglm/utils.py"], ["compute_alpha_max", "compute_alpha_max_mtl", "compute_alpha_max_sparse"])
prop("M08", "Fitting never indexes out of range or mismatches shapes",
 "On any valid dataset (consistent numbers of rows, valid CSC structure) and accepted hyperparameters, no fit fails because an index is out of range or array shapes do not match: fewer features than extrapolation points, a starting working set larger than the number of features, one task or many, empty columns and any K are all fine.",
 ["inputs", "configurations"], "every valid dataset shape and accepted hyperparameter combination",
 "Tests only fit problems with more working-set entries than extrapolation points.",
 [CD, BCD, DM, DFS, DFM, PS, PB, UT], ["anderson_accel", "construct_ws_from_kkt", "solve_lin_sys"])
prop("M09", "Degenerate but valid inputs never produce a division by zero",
 "No result of a penalty, proximal operator, datafit or penalty-strength helper, and no value that a solver stores in coefficients, model fit or extrapolation weights, is computed through a division whose denominator is zero, for any valid dataset and accepted hyperparameters: zero rows, all-zero columns, zero coefficients, zero penalty strength and either end of the l1 ratio are all fine (real arithmetic; the linear-system helper is M10).",
 ["inputs"], "every valid input, including zero rows, zero columns, zero penalty strength and degenerate extrapolation histories",
 "Tests use generic random data on which denominators are never zero.",
 [CD, BCD, PS, PB, UT], ["prox", "subdiff_distance", "cd_epoch", "bcd_epoch", "anderson_accel"])
prop("M10", "The linear-system helper solves regular systems and reports singular ones",
 "For every square system of up to five unknowns and in exact arithmetic, the linear-system helper returns the solution when the matrix is regular, whatever row exchanges that takes, and an error when the matrix is singular; it never divides by zero and never answers from a system on which an elimination step was left out.",
 ["inputs"], "every square system of one to five unknowns (the number of extrapolation points is five), every pattern of zero entries",
 "Three systems are tested.",
 [UT], ["solve_lin_sys"])

# ------------------------------------------------------------------ Python layer
prop("Y01", "Python constructors validate each hyperparameter by its own value",
 "Constructing a Python estimator raises ValueError exactly when alpha is not a non-negative float, gamma (MCP and block MCP) is not a float of at least 1, or l1_ratio (elastic nets) is not a float within [0, 1]; whether one hyperparameter is accepted never depends on the value of another. The error's message is about the rejected parameter, not another one.",
 ["inputs", "configurations"], "every combination of constructor arguments of the six estimators",
 "No test constructs an estimator with an invalid hyperparameter, or MCP at all.",
 [PY], ["*.__init__"])
prop("Y02", "Python hyperparameters reach the native solver in their own role",
 "For each of the six Python estimators, each constructor argument reaches the native estimator of the same model and there sets the hyperparameter of the same meaning, unchanged: alpha, gamma, l1_ratio, max_iter, max_epochs, tol, p0, use_accel, K and verbose. An attribute reassigned between two fits (set_params) takes effect at the next fit.",
 ["inputs", "configurations"], "every estimator and every combination of constructor arguments",
 "Tests set alpha, l1_ratio and tol only and compare converged solutions; MCP and block MCP are not tested at all.",
 [PY] + PYRS, ["*.__init__", "*.fit", "*Wrapper::new"])
prop("Y03", "Python data reach the solver unmixed; coefficients come back untouched",
 "Fitting passes the converted design matrix and target of that call, in float64, to the native solver: dense data as (X, y), sparse data as the CSC data, indices, indptr and y, each in its own place; the stored coefficients are the transposed native result. The caller's arrays are never written to.",
 ["inputs"], "every dense or sparse X and target, float32 or float64",
 "Tests use float64 inputs only and never check the caller's arrays.",
 [PY] + PYRS, ["*.fit", "*Wrapper::fit", "*Wrapper::fit_sparse"])
prop("Y04", "Rejected inputs surface in Python as ValueError, never as a native panic",
 "When the native library rejects the hyperparameters of a Python estimator, fit raises ValueError; the binding layer never unwraps such an error. A design matrix and target with different numbers of samples raise ValueError before any native code runs, for all six estimators; so does a one-dimensional target given to a multi-task estimator.",
 ["inputs", "configurations"], "every rejected hyperparameter combination and every mismatch of sample numbers",
 "No test triggers an error.",
 [PY] + PYRS, ["*Wrapper::fit", "*Wrapper::fit_sparse", "*.fit"])
prop("Y05", "Prediction works exactly on fitted estimators",
 "fit returns the estimator itself. predict raises before fit has succeeded and, after it, returns X times the transposed coefficients for every number of features and tasks, without changing the estimator.",
 ["inputs", "histories"], "every fitted estimator, number of features and tasks, and call sequence",
 "No test calls predict.",
 [PY], ["Estimator.predict"])
prop("Y06", "Python solver settings are validated each time a model is fitted",
 "fit raises ValueError, before any native code runs, whenever max_iter, max_epochs, p0 or K is not a non-negative int or tol is negative or not a float, whatever the other settings are; it accepts every combination of non-negative ints for the former and non-negative float for tol. The error's message is about the rejected setting, not another parameter.",
 ["inputs", "configurations"], "every combination of solver settings of the six estimators",
 "No test fits with an invalid setting.",
 [PY], ["Estimator._validate_params", "*.fit"])
prop("Y07", "Simulated data follow the documented model; the largest penalty is exact",
 "make_correlated_data accepts exactly corr in [0, 1[ and density in ]0, 1] and raises ValueError otherwise. Its first design column is standard normal draws and every further one is corr times the column before plus sqrt(1 - corr^2) times fresh standard normal draws. Simulated coefficients are standard normal on int(density * n_features) distinct random features and zero elsewhere; given ones, of one or two dimensions, are used and returned unchanged. The targets are X w_true plus independent normal noise scaled so that norm(X w_true) / norm(noise) is exactly snr, without noise for infinite snr. All randomness comes from one generator made from random_state. compute_alpha_max returns the largest absolute (multi-task: row norm) correlation of X^T Y over n_samples.",
 ["inputs", "configurations"], "every size, draw, seed and parameter combination",
 "Tests use one seed and never check the distribution, the noise level or given coefficients.",
 ["python/sparseglm/utils.py"], ["make_correlated_data", "compute_alpha_max"])
# ------------------------------------------------------------------ not decided here
prop("N01", "The fitted coefficients minimise the objective to the tolerance",
 "For convex penalties and a sufficient budget, the coefficients returned have an objective within a tolerance-dependent gap of the global minimum.",
 ["inputs"], "every dataset and convex model",
 "A convergence statement over all inputs; tests compare a few random problems with known solutions.",
 [CD, BCD], ["coordinate_descent", "block_coordinate_descent"])
prop("N02", "Floating-point results stay finite and accurate for finite inputs",
 "For finite inputs of any magnitude the fitted coefficients and reported objectives are finite and accurate to a small multiple of machine precision.",
 ["inputs"], "every finite input magnitude and conditioning",
 "Rounding and overflow depend on values no test enumerates.",
 [DFS, UT], ["Logistic::value", "solve_lin_sys"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
