#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

DOE="crates/doe/src/"; GP="crates/gp/src/"; MOE="crates/moe/src/"; EGO="crates/ego/src/"

p("D01", "Every sampling method returns the requested points inside the bounds",
  "Whatever the sampling method, number of requested samples (one included), dimension and bounds, a design has exactly the requested number of rows, one column per variable, only finite values, and every coordinate lies within the variable's lower and upper bounds (within [0, 1] for the normalized design). The call always terminates without panicking, whatever values the random generator produces and however its internal parallel work is scheduled.",
  ["inputs","schedules"], "all sample counts, dimensions, bounds, generator outcomes, worker counts",
  "Tests sample a handful of sizes with fixed seeds and never ask for a single point or drive the generator to its extreme outputs.",
  [DOE+"traits.rs",DOE+"lhs.rs",DOE+"random.rs",DOE+"full_factorial.rs"],
  [("scaling of normalized samples",DOE+"traits.rs sample"),("stratified draws and swaps",DOE+"lhs.rs"),("level grid",DOE+"full_factorial.rs")])
p("D02", "Latin hypercube designs put exactly one point in each interval",
  "For every kind of Latin hypercube and every requested size n, each variable's range is cut into n equal intervals and the design has exactly one point in each of them, for every variable; the centered kinds place it in the middle of the interval. This holds for every outcome of the random generator, including after all the exchanges made by the optimized kind.",
  ["inputs","schedules"], "all sizes, dimensions, kinds, and all shuffle/swap outcomes of the generator",
  "Tests compare a few seeded designs with stored values; the guarantee is over all permutations the shuffles can produce and all swap sequences.",
  [DOE+"lhs.rs"],[("interval draw plus column shuffle",DOE+"lhs.rs _classic_lhs/_centered_lhs"),("column-wise element swap",DOE+"lhs.rs _phip_swap")])
p("D03", "Full factorial designs are distinct points of a balanced level grid",
  "A full factorial design enumerates distinct combinations of evenly spaced levels that include both bounds of a variable as soon as it has two levels, the numbers of levels of any two variables differ by at most one, and no smaller balanced grid would hold the requested number of points. When the requested number is exactly the size of the grid, the design is the complete grid.",
  ["inputs"], "all sample counts and dimensions",
  "Tests check two small grids.",
  [DOE+"full_factorial.rs"],[("level allocation and index expansion",DOE+"full_factorial.rs normalized_sample")])
p("D04", "Seeded sampling is reproducible, whatever the parallel schedule",
  "Two samplers of the same kind built with the same bounds and equal random generators return the same designs, call after call, whatever the number of worker threads and the order in which internal parallel work is executed. Successive calls on one sampler draw from a continuing random stream, so independent draws differ.",
  ["schedules","histories"], "all kinds, sizes, seeds, worker counts and orders of parallel work",
  "Tests run under one schedule; they cannot tell a design that depends on the order of the workers.",
  [DOE+"lhs.rs",DOE+"random.rs",DOE+"utils.rs"],[("shared generator behind a lock",DOE+"lhs.rs rng"),("order preserving parallel collection",DOE+"utils.rs pdist/cdist")])
p("D05", "Distance-optimized designs are never worse than their starting design",
  "The maximin kinds return, among the candidate designs they draw, one whose smallest pairwise distance is the largest. The optimized kind returns a design whose space-filling criterion (the inverse-distance criterion it minimises) is no worse than that of the plain Latin hypercube it starts from.",
  ["inputs","schedules"], "all sizes, dimensions and generator outcomes",
  "Tests compare stored values for a few seeds; they do not check the quality relation between start and result.",
  [DOE+"lhs.rs"],[("retention of the best design",DOE+"lhs.rs _maximin_ese, _maximin_lhs")])

p("G01", "GP predictions are the kriging posterior of the training data",
  "For every trend, correlation kernel and training set, the predicted mean and variance of a trained Gaussian process are those of universal kriging with the model's own reported hyperparameters, in particular the mean interpolates the training outputs and the variance is non-negative and (nearly) null at the training points when no nugget larger than the default is used. Reported process variance and likelihood are those of the concentrated likelihood at these hyperparameters.",
  ["inputs","configurations"], "all trends, kernels, dimensions, training sets, prediction points (training points, duplicates, far points)",
  "Tests check a few functions within loose tolerances; an error that only shows for one kernel, trend, or far from data is not seen.",
  [GP+"algorithm.rs",GP+"correlation_models.rs",GP+"mean_models.rs",GP+"utils.rs"],
  [("normalisation, QR/Cholesky solve",GP+"algorithm.rs"),("kernel values",GP+"correlation_models.rs"),("trend basis",GP+"mean_models.rs")])
p("G02", "GP gradients are the derivatives of GP predictions",
  "For every trend, kernel and dimension, the gradients returned for the predicted mean and the predicted variance are the derivatives of the predicted mean and variance with respect to the inputs, at every point where these are differentiable, with or without dimension reduction, and the combined value/variance gradient calls agree with the separate ones.",
  ["inputs","configurations"], "all trends, kernels, dimensions, training sets and points",
  "Tests check selected combinations against finite differences, some with 10% tolerance.",
  [GP+"algorithm.rs",GP+"correlation_models.rs",GP+"mean_models.rs"],[("analytic jacobians",GP+"algorithm.rs predict_jacobian/predict_var_gradients"),("kernel jacobians",GP+"correlation_models.rs jacobian")])
p("G03", "Surrogate predictions do not depend on batching, order or units",
  "Predicting a batch of points gives, row by row, what predicting each point alone gives, the combined mean/variance call agrees with the separate calls, and repeated calls agree. For fixed hyperparameters, permuting the training points leaves predictions unchanged, and an affine change of the output or input units changes predictions accordingly.",
  ["inputs","histories"], "all batches (sizes, orders, duplicates), permutations of the training set, affine changes of units",
  "Tests predict batches only and never compare with pointwise calls, permutations or rescaled data.",
  [GP+"algorithm.rs",GP+"sparse_algorithm.rs",GP+"utils.rs",MOE+"algorithm.rs"],[("row-wise computations",GP+"algorithm.rs"),("normalisation",GP+"utils.rs NormalizedData")])
p("G04", "Hyperparameter tuning honours what the user asked for",
  "A trained model's hyperparameters lie within the requested bounds, a fixed tuning keeps exactly the requested values, a partial tuning changes only the listed components, and a full tuning never ends with a lower likelihood than the requested starting point. A single value or bound stands for all components, for the dense and the sparse models alike.",
  ["inputs","configurations","schedules"], "all tuning modes, init/bounds shapes, active subsets in any order, numbers of restarts, worker schedules",
  "Tests check the resulting values for single-dimension or default tunings only.",
  [GP+"parameters.rs",GP+"algorithm.rs",GP+"optimization.rs",GP+"sparse_algorithm.rs",GP+"sparse_parameters.rs"],
  [("multistart likelihood maximisation",GP+"optimization.rs"),("active components selection",GP+"algorithm.rs fit"),("bounds expansion",GP+"algorithm.rs, sparse_algorithm.rs")])
p("G05", "Sparse GP predictions are the FITC/VFE posterior of the data",
  "For the hyperparameters and inducing points reported by a trained sparse Gaussian process, predicted mean, variance and likelihood are those of the chosen sparse approximation (FITC or VFE) computed from the training data; with all training points as inducing points both coincide with the exact noisy Gaussian process. The inducing points are the given ones, or a subset of the training inputs of the requested size drawn reproducibly from the seed.",
  ["inputs","configurations"], "all kernels, both methods, noise settings, inducing sets and training sets",
  "Tests look at a smooth 1-D function with loose tolerances and cannot distinguish wrong formulas from the approximation itself.",
  [GP+"sparse_algorithm.rs",GP+"sparse_parameters.rs"],[("FITC/VFE factorizations",GP+"sparse_algorithm.rs fitc, vfe"),("prediction",GP+"sparse_algorithm.rs predict, predict_var")])
p("G06", "Sampled trajectories follow the posterior distribution",
  "Trajectories drawn from a trained dense or sparse Gaussian process at any set of points are the posterior mean plus a linear transform of standard normal draws whose covariance is the posterior covariance at these points; at training points of an interpolating model they equal the training outputs. Every sampling method (Cholesky or eigenvalues) obeys this, and the result has one row per point and one column per trajectory.",
  ["inputs","configurations"], "all models, point sets, numbers of trajectories, sampling methods and draws",
  "Tests only check shapes or visualise one sample.",
  [GP+"algorithm.rs",GP+"sparse_algorithm.rs"],[("posterior covariance and factorization",GP+"algorithm.rs sample_*, sparse_algorithm.rs sample_*")])
p("G07", "Surrogate quality metrics equal their cross-validation definition",
  "The reported predictivity, predictive-variance adequacy and integrated-error metrics of a surrogate equal their definitions computed from the k-fold (or leave-one-out) predictions of models retrained with the same hyperparameters: every point is predicted exactly once by a model that has not seen it.",
  ["inputs","configurations"], "all data set sizes, numbers of folds, kernels and trends",
  "Tests check a single value on one function.",
  [GP+"metrics.rs",MOE+"metrics.rs"],[("k-fold retraining",GP+"metrics.rs, "+MOE+"metrics.rs")])

p("M01", "Mixture predictions recombine experts with a partition of unity",
  "For every point, however far from the data, the cluster membership probabilities of a mixture of experts are non-negative and sum to one; with smooth recombination the prediction is the probability-weighted sum of the experts' means (squared weights for variances), with hard recombination it is that of the expert of the most probable cluster; after any history of changes of recombination the mixture behaves as one given the last recombination at once. A single-cluster mixture predicts exactly as its expert.",
  ["inputs","configurations"], "all numbers of clusters and experts, recombination modes, points including far ones",
  "Tests check accuracy on a few functions inside the sampled domain.",
  [MOE+"algorithm.rs",MOE+"gaussian_mixture.rs"],[("responsibilities",MOE+"gaussian_mixture.rs"),("recombination",MOE+"algorithm.rs predict_smooth/predict_hard")])
p("M02", "Mixture gradients are the derivatives of mixture predictions",
  "For every recombination mode, number of clusters and dimension, the gradients of the mean and variance returned by a mixture of experts are the derivatives of its predicted mean and variance, including the contribution of the varying membership probabilities in smooth mode, and combined calls agree with separate ones.",
  ["inputs","configurations"], "all numbers of clusters, dimensions, recombination modes and points",
  "Tests cover one-dimensional or single-cluster cases only.",
  [MOE+"algorithm.rs",MOE+"gaussian_mixture.rs"],[("product rule over clusters",MOE+"algorithm.rs predict_*_gradients_*"),("derivative of responsibilities",MOE+"gaussian_mixture.rs predict_probas_derivatives")])
p("M03", "Mixture training yields as many experts as clusters, and uses what was allowed",
  "Training a mixture of experts either returns an error or a model with the requested number of clusters and one expert per cluster, each of an allowed trend and kernel and trained on the points of its own cluster, that predicts finite values on the training domain; it never panics. With given hyperparameter tuning, bounds or starting values, each expert honours those of its cluster, and the same seed gives the same model.",
  ["inputs","configurations","schedules"], "all data set sizes, dimensions, cluster counts (automatic included), allowed model sets, schedules",
  "Tests train on a few smooth functions with plenty of points.",
  [MOE+"algorithm.rs",MOE+"clustering.rs",MOE+"parameters.rs"],[("clustering and number of clusters selection",MOE+"clustering.rs"),("best expert selection",MOE+"algorithm.rs find_best_expert")])
p("M04", "A saved surrogate reloads to the same model",
  "Any trained surrogate (dense or sparse Gaussian process, mixture of experts, mixed-integer mixture) saved to a file in any supported format and loaded back, or serialized and deserialized directly, predicts what the original predicts and reports the same characteristics: bit for bit in the binary format, and with every number of the model kept within its printing precision (a few units in the last place) in the text format. A missing or truncated file, or a text file whose structure is damaged, gives an error, never a panic or, when truncated, another model. A file or directory that cannot be written gives an error.",
  ["inputs","configurations","crash_points"], "all model kinds, kernels, trends, formats, and all truncations of the file",
  "Tests reload one model in one format and compare within a tolerance.",
  [MOE+"algorithm.rs",MOE+"surrogates.rs",GP+"algorithm.rs",GP+"sparse_algorithm.rs",EGO+"gpmix/mixint.rs"],[("typetag serialization",MOE+"surrogates.rs"),("save/load",MOE+"algorithm.rs, surrogates.rs")])

p("X01", "Mixed-integer encoding and decoding are inverse of each other",
  "For every list of variable types (float, integer, ordered, enumerated with any number of levels, in any order and number), encoding a valid point into the continuous relaxed space and decoding it gives the point back, the relaxed bounds have the matching shape and contain every encoded point, and decoding any relaxed point gives a valid point whose enumerated component is the level with the largest relaxed coordinate.",
  ["inputs","configurations"], "all type lists up to several variables and all their points",
  "Tests use at most one enumerated variable, where column offsets coincide.",
  [EGO+"gpmix/mixint.rs"],[("folding/unfolding with offsets",EGO+"gpmix/mixint.rs unfold_with_enum_mask, fold_with_enum_index"),("rounding to the closest valid value",EGO+"gpmix/mixint.rs cast_to_discrete_values")])
p("X02", "Mixed-integer sampling and surrogates only use valid values",
  "Samples of a mixed-integer design are valid values of their types within bounds, and a surrogate trained through the mixed-integer context predicts at a relaxed point what it predicts at the valid point it stands for, so that predictions are constant over the relaxed region of each discrete value. Training through the context uses the discrete values of the training inputs.",
  ["inputs","configurations"], "all type lists, sampling methods and points",
  "Tests check one type list.",
  [EGO+"gpmix/mixint.rs",EGO+"types.rs"],[("casting before delegation",EGO+"gpmix/mixint.rs MixintSampling, MixintGpMixture")])

p("E01", "The reported best is the best feasible evaluation",
  "Given any history of evaluated objectives and constraints, the selected best point is a feasible one (all constraints within tolerance) with the lowest objective when there is one, otherwise one with the smallest constraint violation. The incremental selection used during a run always equals the selection over the whole history.",
  ["histories","inputs"], "all histories over a small alphabet of objective/constraint values, ties and infinities included",
  "Tests check half a dozen hand-written histories.",
  [EGO+"utils/find_result.rs",EGO+"solver/solver_impl.rs",EGO+"solver/egor_state.rs"],[("lexicographic comparison on violation then objective",EGO+"utils/find_result.rs")],
  state=[("best index","row of the best evaluation so far",EGO+"solver/egor_state.rs")])
p("E02", "Optimization history is exactly what was evaluated, best included",
  "At every iteration of an optimization, and in the final result, the history of inputs contains only points within the bounds and valid for their types, the stored outputs are the values the user's function returned for exactly these inputs in evaluation order, no point (in the space the optimizer works in, where discrete variables are relaxed) is evaluated twice by the optimizer itself, and the reported best input/output is a row of the history that is the best one by the documented rule.",
  ["histories","configurations","inputs"], "all configurations (strategies, constraints, mixed variables, batch sizes) and all sequences of values returned by the user's function over a small alphabet",
  "Tests look at the final optimum of well-behaved functions.",
  [EGO+"solver/solver_impl.rs",EGO+"solver/egor_solver.rs",EGO+"solver/egor_state.rs",EGO+"egor.rs",EGO+"utils/find_result.rs"],
  [("evaluation and recording",EGO+"solver/solver_impl.rs ego_step, eval_obj"),("best tracking",EGO+"solver/egor_state.rs")],
  state=[("x, y history","all evaluated points","egor_state.rs data")])
p("E03", "A run spends its budget, no more, and stops when told to",
  "Starting from an initial design of the requested (or given) size, a run performs at most the requested number of iterations with the requested number of evaluations each, and stops early only because the target value has been reached by a feasible point, the time budget is exhausted, or no new point can be found; in particular it stops as soon as the target is reached, also in the initial design.",
  ["histories","configurations"], "all budgets, batch sizes, design sizes, target values and positions in the history where the target is hit",
  "Tests check one or two budgets.",
  [EGO+"solver/egor_solver.rs",EGO+"solver/egor_state.rs",EGO+"solver/solver_impl.rs",EGO+"egor.rs"],[("iteration and target checks",EGO+"solver/egor_solver.rs next_iter")])
p("E04", "Same seed, same run - whatever the thread schedule",
  "Two runs of the same optimization with the same seed and configuration evaluate the same points in the same order and report the same result, whatever the number of worker threads and the order in which parallel work is executed, whatever other runs happened before in the process, and whatever the process it runs in.",
  ["schedules","histories","configurations"], "all configurations and all bounded-deviation schedules of internal parallel work",
  "Tests run each seeded case once under one uncontrolled schedule.",
  [EGO+"solver/solver_impl.rs",EGO+"solver/solver_infill_optim.rs",EGO+"solver/solver_computations.rs",EGO+"utils/portfolio.rs",GP+"optimization.rs",MOE+"algorithm.rs"],
  [("seeded generator carried in the state",EGO+"solver/egor_state.rs"),("order preserving parallel maps",EGO+"solver/solver_infill_optim.rs, "+GP+"optimization.rs")])
p("E05", "A run resumed from any checkpoint continues as if never interrupted",
  "If a run with checkpointing is interrupted after any iteration and restarted in hot-start mode, it performs the remaining iterations exactly as the uninterrupted run would have: same evaluated points, same history, same result, and no evaluation of the already evaluated points. With an extended budget it performs exactly the requested number of additional iterations.",
  ["crash_points","histories","configurations"], "all interruption iterations, all configurations, chains of several interruptions",
  "Tests resume one run once and only look at the number of iterations.",
  [EGO+"utils/hot_start.rs",EGO+"solver/egor_state.rs",EGO+"solver/egor_solver.rs",EGO+"egor.rs"],[("serialized state with generator",EGO+"solver/egor_state.rs"),("checkpoint save/load",EGO+"utils/hot_start.rs")])
p("E06", "A crash at any point of a checkpoint leaves a loadable checkpoint",
  "Once a first checkpoint has been written, a crash at any later point of the run - including in the middle of writing a checkpoint - leaves on disk a checkpoint that loads, and equals either the last completed one or the one being written. A restart never fails or silently starts from scratch because of an interrupted write.",
  ["crash_points","fault_sequences"], "all prefixes of the file operations of a checkpoint history and all torn writes",
  "Tests never crash the process while it writes.",
  [EGO+"utils/hot_start.rs"],[("write aside then rename",EGO+"utils/hot_start.rs save")])
p("E07", "Warm start and saved designs reproduce what was evaluated",
  "The files written to the output directory (initial design, evaluated history, configuration) contain exactly the evaluated inputs, objectives and constraints, and a new run that starts from them or from a given design uses these evaluations without recomputing them, in all combinations of constraints and mixed variables. Given inputs without outputs are evaluated first, exactly once each.",
  ["histories","configurations"], "all problem shapes (constraints, function constraints, mixed variables), warm-start flags and given designs",
  "Tests warm start an unconstrained problem only.",
  [EGO+"solver/egor_solver.rs",EGO+"utils/run_recorder.rs",EGO+"egor.rs"],[("save and reload of the history",EGO+"solver/egor_solver.rs init, next_iter")])
p("E08", "Ask-and-tell suggestions are valid and reproducible",
  "Given any history of evaluated points, the ask-and-tell service suggests the requested number of points, within bounds and valid for their types, does not modify the history, and with the same seed and history suggests the same points again whatever was asked before, those a run started from this history would evaluate first; inputs are given and returned in the user's space.",
  ["histories","configurations"], "all histories of asks and tells up to a depth over small designs, batch sizes and strategies",
  "Tests drive one sequence on one function.",
  [EGO+"solver/egor_service.rs",EGO+"solver/solver_impl.rs"],[("stateless suggestion from the history",EGO+"solver/egor_service.rs suggest")])
p("E09", "The trust region adapts and phases alternate as documented",
  "With the trust-region option, an iteration is global at the start of every cycle of 1 + (number of local steps) iterations and after a successful global iteration, and local otherwise; the size of the trust region grows by the configured factor after an iteration which improved the best value by more than the squared size, shrinks after a local iteration which did not, and is unchanged otherwise; a local step evaluates at most one new point, within the bounds, and never ends the run.",
  ["histories","configurations"], "all sequences of improving / non-improving / infeasible evaluations up to a depth and configurations",
  "Tests only check final convergence.",
  [EGO+"solver/trego.rs",EGO+"solver/solver_impl.rs",EGO+"solver/egor_state.rs"],[("sigma update and local bounds",EGO+"solver/trego.rs")],
  state=[("sigma","trust region size","egor_state.rs"),("prev_step_ego, global_trego_iter","phase","egor_state.rs")])
p("E10", "Cooperative components partition the variables and keep the others fixed",
  "With cooperative components enabled, the groups form a partition of all variables into the requested number of groups of balanced size, redrawn from the seed, and an infill point obtained by optimizing a group differs from the reference point only in that group's variables; the objective, gradient and constraints used for a group are those of the full problem restricted to the group's variables.",
  ["inputs","histories","configurations"], "all dimensions, group counts, shuffles",
  "Tests check one partition and final convergence.",
  [EGO+"solver/coego.rs",EGO+"solver/solver_infill_optim.rs"],[("random partition",EGO+"solver/coego.rs get_random_activity"),("active component substitution",EGO+"solver/coego.rs set_active_x")])
p("E11", "Infill criteria take their textbook values and gradients",
  "Expected improvement, its logarithm and the scaled/regularized variants equal their definitions from the surrogate's predicted mean and variance, also when the standard deviation is tiny or the improvement hopeless (where the variance is below machine epsilon, expected improvement is zero and its logarithm the lowest number); none of them is NaN, and their gradients are the derivatives of their values with respect to the inputs.",
  ["inputs","configurations"], "all surrogates, points (training points and far points included), current minima and scales",
  "Tests compare gradients at a few points with large tolerances.",
  [EGO+"criteria/ei.rs",EGO+"criteria/wb2.rs",EGO+"utils/logei_helper.rs",EGO+"utils/misc.rs"],[("criteria values and gradients",EGO+"criteria/*.rs")])
p("E12", "Constraint handling criteria equal their definitions",
  "The probability of feasibility of a constraint surrogate (zero where its variance is below machine epsilon; its logarithm never below that of machine epsilon), products and sums over several constraints, the mean and upper-trust-bound values of a constraint, their combination with the infill criterion, and all their gradients, for all or any group of components, equal their definitions from the surrogates' means and variances for every tolerance, number of inputs and number of constraints; scaling factors are positive and finite.",
  ["inputs","configurations"], "all numbers of inputs, constraints, tolerances and points",
  "Tests check one-dimensional gradients with zero tolerance.",
  [EGO+"utils/cstr_pof.rs",EGO+"solver/solver_computations.rs"],[("probability of feasibility",EGO+"utils/cstr_pof.rs"),("upper trust bound",EGO+"solver/solver_computations.rs")],
  hook="private items re-exported under a cfg")
p("E13", "Function constraints see real inputs, on the scale of the problem",
  "Constraints given as functions are always evaluated at points of the user's space (within bounds, discrete variables at valid values), their unscaled values enter the history used to rank evaluations, with the requested or default tolerance, and the reported best satisfies them whenever an evaluated point does.",
  ["histories","configurations"], "all combinations of surrogate-modelled and function constraints, mixed variables, tolerances, strategies",
  "Tests use one float problem with function constraints and check the final optimum.",
  [EGO+"solver/solver_impl.rs",EGO+"solver/egor_solver.rs",EGO+"egor.rs"],[("evaluation of function constraints",EGO+"solver/solver_impl.rs eval_fcstrs"),("tolerances",EGO+"solver/egor_solver.rs init")])
p("E14", "Batch suggestions are distinct points in the requested number",
  "Whatever the batch strategy and batch size, every iteration evaluates distinct points, at least one and at most the requested number, none of which is (numerically, in the space the optimizer works in) a point already evaluated, and virtual values assumed for pending points never enter the stored history.",
  ["histories","configurations"], "all strategies, batch sizes, iteration counts and environment answers",
  "Tests check the size of the final history in two cases.",
  [EGO+"solver/solver_impl.rs",EGO+"utils/misc.rs"],[("virtual points",EGO+"solver/solver_impl.rs compute_virtual_point"),("removal of too close points",EGO+"utils/find_result.rs, misc.rs update_data")])
p("E15", "Settings are recorded as given and contradictory ones are refused",
  "Whatever the sequence of setting calls, each call changes only the setting it documents and the last value given is the one used, reported and saved; settings which contradict one another or the training data (no or too many reduced dimensions, numbers of hyperparameters or bounds other than one or the dimension, different numbers of clusters and tunings, of constraints and tolerances, cooperative components with dimension reduction or without group, too few points) are refused with an error when checked, built or trained, whichever way; other combinations are accepted, and none makes the program panic.",
  ["configurations","histories"], "all sequences of setting calls up to a length, all combinations of small values of the settings which interact",
  "Tests check a few invalid settings.",
  [EGO+"solver/egor_config.rs",EGO+"egor.rs",EGO+"solver/egor_service.rs",GP+"parameters.rs",GP+"sparse_parameters.rs",MOE+"parameters.rs"],[("parameter guards",GP+"parameters.rs check_ref, "+MOE+"parameters.rs check_ref, "+EGO+"solver/egor_config.rs check")])
p("E16", "Surrogates of a run are trained as configured, on exactly the run's data",
  "Every surrogate a run trains gets the configured settings (kernels, trends, dimension reduction, clusters, recombination, tuning effort, bounds, seed) and is what a mixture with these settings trained directly would be; each output is modelled from its own column on exactly the evaluated points so far, plus the pending points of the batch with the values the batch strategy assumes for them; hyperparameters are optimized, from the previous ones (the configured ones at first), every q_optmod-th selection and reused unchanged otherwise; with cooperative components the groups tuned at one selection cover all the components.",
  ["histories","configurations"], "all sequences of evaluations up to a depth, settings, batch strategies, retries and phases",
  "Tests check final convergence only, which wrong data or settings barely change.",
  [EGO+"solver/solver_impl.rs",EGO+"gpmix/mixint.rs",EGO+"gpmix/mod.rs"],[("training of the surrogates of each output",EGO+"solver/solver_impl.rs make_clustered_surrogate"),("pending points",EGO+"solver/solver_impl.rs select_next_points, compute_virtual_point")])
p("E17", "Recorded runs and surrogates describe the run",
  "When recording is asked for, the recorded run holds exactly the evaluations of the run: the initial samples in order, then one entry per iteration with the points this iteration evaluated and the values of the objective at them (none for an iteration which evaluated nothing), with the totals, bounds, settings and execution metadata of the run, also when the run was interrupted and restarted; the recorded surrogates load as one model per output, trained on the points known at their iteration; the history of the best has one row per iteration, the best evaluation after it. Nothing is recorded otherwise.",
  ["histories","configurations","crash_points"], "all sequences of answers up to a length, configurations, interruption points",
  "No test reads the recorded files back.",
  [EGO+"utils/run_recorder.rs",EGO+"utils/gp_recorder.rs",EGO+"solver/egor_solver.rs",EGO+"egor.rs"],[("recorded run",EGO+"solver/egor_solver.rs next_iter, "+EGO+"utils/run_recorder.rs"),("recorded surrogates",EGO+"solver/solver_impl.rs select_next_points"),("history of the best",EGO+"egor.rs OptimizationObserver")])
p("E18", "The suggested point is the best found from the starting points",
  "Each search of the infill point starts from the configured number of points, all within the bounds, and (unless disabled) one of them in the middle of two known points; the point it keeps is the one with the best value of the criterion, and this value is the one recorded as the value of the criterion for the iteration, wherever the best stands among the starts, whatever ties or starts without a value (not a number) there are, at every iteration and every position of a batch; a search in which no start gives a value is tried again a bounded number of times, and an iteration adds only points kept by its searches.",
  ["inputs","histories"], "all assignments of values and failures to the starting points, at every search of a history up to a length",
  "Tests only check that the optimum of a few analytical functions is approached, which one good start out of twenty ensures.",
  [EGO+"solver/solver_impl.rs",EGO+"solver/solver_infill_optim.rs",EGO+"optimizers/optimizer.rs",EGO+"utils/start_points.rs"],[("search of the infill point",EGO+"solver/solver_infill_optim.rs compute_best_point"),("starting points",EGO+"utils/start_points.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False)+"\n")
print(len(P))
