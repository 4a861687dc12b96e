#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, technique="", note="", claimed=True, reason=None, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], technique=technique, note=note, claimed=claimed, reason=reason, level=level))

D, G, M, E = "crates/doe/src/", "crates/gp/src/", "crates/moe/src/", "crates/ego/src/"

prop("C01", "Designs of experiments are well-formed for every size, space and seed",
 "Every sampling method returns exactly the requested number of points, all within the bounds of the sampling space, and terminates for any number of points including zero and one. "
 "Every kind of Latin hypercube puts exactly one point in each of the n equal slices of every dimension (at slice centres for the centred kinds). "
 "A full-factorial design lists distinct points of one regular grid that includes both bounds of every varied dimension and whose numbers of levels differ by at most one between dimensions; random designs are uniform over the space.",
 ["inputs"], "every dimension, number of points, bounds, seed and float width (f32, f64)",
 "Unit tests compare a handful of seeds and sizes (n=5..10, 2-D) with recorded numbers; they never sweep n=0,1,2, high dimensions or f32.",
 [D+"lhs.rs", D+"full_factorial.rs", D+"random.rs", D+"traits.rs"],
 [("stratified draw + per-column shuffle", D+"lhs.rs:_classic_lhs"), ("row swaps keep columns a permutation", D+"lhs.rs:_phip_swap"), ("even level allocation", D+"full_factorial.rs:normalized_sample"), ("affine scaling to bounds", D+"traits.rs:sample")],
 technique="runtime monitoring: structural invariant oracle over generated designs",
 note="Held on the designs generated; oracle recomputes stratum occupancy, grid structure and uniformity (goodness-of-fit with a false-alarm rate below 1e-9).")

prop("C02", "Seeded designs are reproducible and space-filling kinds spread points",
 "Two samplers built with the same bounds, kind and random generator state return bitwise-identical designs, and successive draws from one sampler differ. "
 "Sampling in a space is the affine image of the normalised sample for the same generator state. "
 "Maximin and optimised Latin hypercubes are, on average over seeds, better spread (larger minimal distance, smaller inverse-distance potential) than plain ones.",
 ["inputs", "configurations"], "every kind, dimension, size, bounds and seed; calls from several threads on one shared sampler",
 "Tests pin one recorded sample per kind; they cannot see loss of space filling or seed leakage that keeps those samples.",
 [D+"lhs.rs", D+"random.rs", D+"utils.rs"],
 [("enhanced stochastic evolutionary optimisation of the potential", D+"lhs.rs:_maximin_ese"), ("best-of-k selection", D+"lhs.rs:_maximin_lhs"), ("shared generator behind a lock", D+"lhs.rs:rng")],
 technique="runtime monitoring: twin-run differential and statistical dominance oracle",
 note="Held on the twin runs and populations sampled; dominance is tested on means over many seeds with wide margins.")

prop("C03", "Mixed-integer designs only contain admissible values",
 "Sampling a space of float, integer, ordered and categorical variables with any sampling method yields, for every point and variable, an admissible value: floats and integers within bounds (integers whole), ordered values from the given list, categorical values as a valid index (folded) or a one-hot mask (unfolded). "
 "The folded and the unfolded form of the same design describe the same points, and given enough points every integer, ordered and categorical level is reached.",
 ["inputs", "configurations"], "every sequence of variable types (any number and order of categorical variables), sampling method, size and seed",
 "Tests use a few fixed type lists, with at most one categorical variable placed last; index arithmetic after a categorical variable is never exercised.",
 [E+"gpmix/mixint.rs"],
 [("projection to the closest admissible value", E+"gpmix/mixint.rs:cast_to_discrete_values_mut"), ("folding of one-hot masks", E+"gpmix/mixint.rs:fold_with_enum_index"), ("sampling decorator", E+"gpmix/mixint.rs:MixintSampling")],
 technique="runtime monitoring: domain-membership oracle on generated designs",
 note="Held on the type lists and designs generated.")

prop("C04", "Continuous relaxation of discrete points is lossless and idempotent",
 "Relaxing an admissible discrete point to the continuous space and discretising it back returns the same point, bit for bit. "
 "Discretising any relaxed point yields an admissible point that is closest to it (nearest integer, nearest listed value, largest mask component), and discretising twice changes nothing. "
 "The continuous bounds have one row per continuous dimension, bracket every relaxed admissible point and are attained.",
 ["inputs", "configurations"], "every sequence of variable types and every admissible or relaxed point, including ties, bounds and points on level boundaries",
 "Tests check two or three hand-written vectors with one categorical variable.",
 [E+"gpmix/mixint.rs"],
 [("unfold", E+"gpmix/mixint.rs:unfold_with_enum_mask"), ("fold", E+"gpmix/mixint.rs:fold_with_enum_index"), ("bounds", E+"gpmix/mixint.rs:as_continuous_limits"), ("nearest value", E+"gpmix/mixint.rs:take_closest")],
 technique="runtime monitoring: round-trip and reference-projection oracle",
 note="Held on the points generated against an independent projection.")

prop("C05", "Gaussian process predictions equal the exact kriging posterior",
 "For every trend (constant, linear, quadratic) and kernel (squared and absolute exponential, Matern 3/2 and 5/2), the predicted mean and variance of a trained process equal the universal-kriging posterior computed from the training data at the reported hyperparameters, and the reported process variance and likelihood equal their closed forms. "
 "Point-by-point, batched and combined value/variance predictions agree.",
 ["inputs", "configurations"], "every kernel, trend, dimension, data set, nugget, dimension reduction, hyperparameter choice and query point (near, far, at training points)",
 "Tests compare error thresholds on a few smooth functions at a few points; a formula that is slightly wrong for one kernel/trend/dimension combination stays under the thresholds.",
 [G+"algorithm.rs", G+"correlation_models.rs", G+"mean_models.rs", G+"utils.rs"],
 [("generalised least squares and Cholesky factor", G+"algorithm.rs:reduced_likelihood"), ("kernel matrices", G+"correlation_models.rs:value"), ("trend basis", G+"mean_models.rs:value"), ("variance formula", G+"algorithm.rs:predict_var"), ("data normalisation", G+"utils.rs:NormalizedData")],
 technique="runtime monitoring: differential check against an independent dense kriging reference",
 note="Held on the models trained; reference is a from-scratch dense solver in /verif, tolerance scaled by the conditioning of the kernel matrix.")

prop("C06", "Gaussian processes interpolate their data with a consistent uncertainty",
 "A trained process with the default nugget reproduces its training outputs, with a predicted variance that is negligible there; the variance is non-negative and finite everywhere, and never exceeds the bound given by prior variance plus trend uncertainty. "
 "Far from the data the mean reverts to the trend and the variance to the prior level, and adding an observation at fixed hyperparameters and process variance never increases the normalised variance.",
 ["inputs", "configurations"], "every kernel, trend, dimension, data set (including constant outputs, clustered and badly scaled inputs) and query point",
 "Tests check interpolation on a few smooth 1-D/2-D data sets.",
 [G+"algorithm.rs", G+"utils.rs"],
 [("posterior mean", G+"algorithm.rs:predict"), ("variance clamped to non-negative", G+"algorithm.rs:predict_var"), ("nugget on the diagonal", G+"algorithm.rs:reduced_likelihood")],
 technique="runtime monitoring: invariant oracle over predictions at hostile query points",
 note="Held on the models and points tried; interpolation tolerance grows with nugget times condition number.")

prop("C07", "Hyperparameter tuning honours its contract",
 "Tuned length-scale parameters always lie within the requested bounds and give a likelihood at least as good as the starting guess; fixed parameters are used unchanged and partially tuned ones leave the inactive components at their initial value. "
 "The reported likelihood belongs to the reported parameters, the number of parameters matches the (reduced) input dimension, and training the same data with the same seeded multistart settings yields bitwise-identical models.",
 ["inputs", "configurations", "schedules"], "every tuning mode, bound, starting guess, active set, number of starts, evaluation budget, dimension reduction and thread count",
 "Tests train with default settings on a few functions; bounds, inactive components and reproducibility across thread schedules are not observed.",
 [G+"algorithm.rs", G+"optimization.rs", G+"parameters.rs"],
 [("multistart over prepared starting points", G+"optimization.rs:prepare_multistart"), ("best-of reduction in parallel", G+"algorithm.rs:fit"), ("inactive components fixed", G+"parameters.rs:ThetaTuning")],
 technique="runtime monitoring: contract monitor over tuned models and thread-schedule twin runs",
 note="Held on the trainings observed, under 1, 2 and 8 worker threads.")

prop("C08", "Predicted gradients are the derivatives of the predictions",
 "For every trend and kernel, with or without dimension reduction, the gradients returned for the predicted mean and the predicted variance (batched, single-point, combined or one component at a time) equal the derivatives of the predicted mean and variance at that point.",
 ["inputs", "configurations"], "every kernel, trend, dimension, data set, dimension reduction and differentiable query point",
 "Tests compare a few kernels with finite differences at a few points and loose tolerances; per-component derivatives and reduced dimensions are barely covered.",
 [G+"algorithm.rs", G+"correlation_models.rs", G+"mean_models.rs"],
 [("mean gradient", G+"algorithm.rs:predict_gradients"), ("variance gradient", G+"algorithm.rs:predict_var_gradients_single"), ("component derivative", G+"algorithm.rs:predict_kth_derivatives"), ("kernel jacobians", G+"correlation_models.rs:jacobian"), ("trend jacobians", G+"mean_models.rs:jacobian")],
 technique="runtime monitoring: high-order finite differences of the monitored predictions",
 note="Held on the points tried; compared with Richardson-extrapolated central differences and their error estimate.")

prop("C09", "Models do not depend on units, origin or order of the data",
 "At given hyperparameters, translating or rescaling the inputs (per component) or the outputs transforms predictions, variances and gradients accordingly, and reordering training points or input columns (with their hyperparameters) changes nothing. "
 "Predicting a batch equals predicting its points one at a time, in any order.",
 ["inputs", "configurations"], "every kernel, trend, data set, affine change of units (up to many orders of magnitude) and permutation",
 "Tests never transform data; metamorphic relations over inputs are not sampled at all.",
 [G+"algorithm.rs", G+"utils.rs", G+"correlation_models.rs"],
 [("normalisation of x and y", G+"utils.rs:NormalizedData"), ("pairwise differences", G+"utils.rs:DiffMatrix")],
 technique="runtime monitoring: metamorphic relations on trained models",
 note="Held on the transformed twins observed.")

prop("C10", "Sampled trajectories follow the posterior distribution",
 "Trajectories drawn from a trained process have the requested shape and, over many draws, the mean, variance and correlation between points of the posterior; at training points they pass through the data. "
 "Every sampling method offered gives the same distribution.",
 ["inputs", "configurations"], "every kernel, trend, data set, set of points and sampling method",
 "Tests plot or count trajectories on one function; the distribution is not checked.",
 [G+"algorithm.rs", G+"sparse_algorithm.rs"],
 [("posterior covariance", G+"algorithm.rs:_compute_covariance"), ("factor times normal draws", G+"algorithm.rs:sample")],
 technique="runtime monitoring: statistical oracle (mean/covariance of recorded trajectories vs reference posterior)",
 note="Held statistically on the trajectories recorded, thresholds set for a false-alarm rate below 1e-9.")

prop("C11", "Sparse processes equal their inducing-point formulas",
 "Predictions of a sparse process with the FITC or VFE method equal the closed-form sparse posterior for the inducing points, length scales, process variance and noise it reports; variances are at least the noise level and gradients are the derivatives of the predictions. "
 "With inducing points at all training inputs the sparse posterior coincides with the dense one, tuned noise stays within its bounds, and a seeded sparse model is reproducible.",
 ["inputs", "configurations"], "both methods, every kernel, noise mode, inducing set (located, randomised) and query point",
 "Tests check error thresholds on one noisy 1-D function.",
 [G+"sparse_algorithm.rs", G+"sparse_parameters.rs"],
 [("FITC quantities", G+"sparse_algorithm.rs:fitc"), ("VFE quantities", G+"sparse_algorithm.rs:vfe"), ("inducing selection", G+"sparse_algorithm.rs:make_inducings")],
 technique="runtime monitoring: differential check against an independent sparse-GP reference",
 note="Held on the models trained; reference written from the published formulas.")

prop("C12", "Saved models predict exactly like the originals",
 "Saving any trained surrogate (dense, sparse, clustered mixture, mixed-integer) in any supported format and loading it back gives a model whose state, predictions, variances, gradients, hyperparameters and metadata are the same as the original's (up to the last printed digit for text formats). "
 "Loading a missing or truncated file, or one written in another format, reports an error; loading a damaged text file never crashes; saving where no file can be created reports an error.",
 ["inputs", "configurations", "fault_sequences"], "every surrogate kind, kernel/trend combination, file format, and truncation point",
 "Tests round-trip one or two models and compare a few predictions loosely.",
 [M+"algorithm.rs", M+"surrogates.rs", G+"algorithm.rs", E+"gpmix/mixint.rs"],
 [("tagged serialisation of experts", M+"surrogates.rs"), ("save/load", M+"algorithm.rs:GpMixture::save/load"), ("kernel/trend names", G+"correlation_models.rs")],
 technique="runtime monitoring: round-trip differential and fault injection on saved files",
 note="Held on the models and truncation points tried.")

prop("C13", "Expert responsibilities form a probability distribution everywhere",
 "For every trained mixture and every query point, near or far from the clusters, the responsibilities are finite, non-negative and sum to one, and equal the posterior cluster probabilities of the reported mixture of normals. "
 "Their derivatives are the derivatives of the responsibilities, and the cluster assigned to a point is the one of largest responsibility.",
 ["inputs", "configurations"], "every number of clusters, covariance scale, smoothing factor and query point, including far away from all clusters",
 "Tests check sums at a few points close to the data.",
 [M+"gaussian_mixture.rs", M+"clustering.rs"],
 [("log-sum-exp normalisation", M+"gaussian_mixture.rs:compute_log_prob_resp"), ("derivatives", M+"gaussian_mixture.rs:predict_probas_derivatives"), ("covariance scaling", M+"gaussian_mixture.rs:heaviside_factor")],
 technique="runtime monitoring: invariant oracle and independent log-space reference",
 note="Held on the mixtures and points tried.")

prop("C14", "Mixture predictions combine the experts as documented",
 "With hard recombination the prediction, variance and gradients at a point are those of the expert of the most responsible cluster; with smooth recombination the mean is the responsibility-weighted mean of the experts and the variance the squared-weight sum of their variances, and the gradients are the derivatives of these. "
 "A one-cluster mixture behaves exactly like its only expert, and batched predictions equal pointwise ones.",
 ["inputs", "configurations"], "every number of clusters, input dimension, recombination, expert specification and query point",
 "Tests use one or two data sets and mostly one input dimension equal or close to the number of clusters.",
 [M+"algorithm.rs"],
 [("smooth combination", M+"algorithm.rs:predict_smooth"), ("hard combination", M+"algorithm.rs:predict_hard"), ("gradients", M+"algorithm.rs:predict_gradients_smooth, predict_var_gradients_smooth")],
 technique="runtime monitoring: recombination oracle over experts' own predictions plus finite differences",
 note="Held on the mixtures and points tried.")

prop("C15", "Model selection and quality metrics are what they claim to be",
 "Cross-validation metrics (predictivity, predictive variance adequacy, integrated alpha error averaged over folds) equal their definitions recomputed from models trained on the held-in folds, and do not depend on how many times or in what order they are asked. "
 "Training a mixture uses only regression and correlation models allowed by the specification, the requested number of clusters, and honours a requested hyperparameter tuning and dimension reduction; a seeded mixture training is reproducible.",
 ["inputs", "configurations"], "every specification set, number of clusters, data set, fold count and seed",
 "Tests assert thresholds of metrics on single data sets and one expert specification at a time.",
 [M+"algorithm.rs", M+"metrics.rs", M+"clustering.rs", G+"metrics.rs"],
 [("fold metrics", G+"metrics.rs"), ("mixture metrics", M+"metrics.rs"), ("expert selection by cross-validation", M+"algorithm.rs:find_best_expert"), ("cluster count", M+"clustering.rs:find_best_number_of_clusters")],
 technique="runtime monitoring: recomputation oracle over cross-validated models",
 note="Held on the data sets and specifications tried.")

prop("C16", "Numerical code runs free of undefined behaviour and data races",
 "Sampling, training, predicting, differentiating and optimising, in single and double precision and on any number of threads, never reads or writes outside its objects, uses uninitialised memory, or races on shared data. "
 "Results in single precision are the double-precision results up to rounding.",
 ["inputs", "schedules", "configurations"], "every public numerical entry point, both float widths, every thread count",
 "Ordinary tests only look at results; out-of-bounds reads and races usually leave them unchanged, and single precision is hardly tested.",
 [G+"algorithm.rs", G+"optimization.rs", G+"sparse_algorithm.rs", E+"utils/sort_axis.rs", D+"lhs.rs"],
 [("float conversions around the optimiser", G+"optimization.rs:into_f64"), ("in-place axis permutation with raw pointers", E+"utils/sort_axis.rs:permute_axis"), ("parallel multistart", G+"algorithm.rs:fit")],
 technique="sanitizers: Miri, AddressSanitizer and ThreadSanitizer builds of the workload",
 note="A clean report covers the executed paths only; Miri runs reduced workloads, ASan/TSan the full instrumented standard library.")

prop("C17", "The optimiser only ever evaluates admissible points",
 "During an optimisation every point passed to the objective lies within the declared design space, with exactly the declared number of variables, and carries admissible discrete values (whole integers, listed values, valid category indices); function constraints always receive all the declared variables, discrete ones with admissible values (the internal optimiser may probe real and integer ones beyond their bounds). "
 "This holds whatever the strategy options and whatever finite values the functions return.",
 ["inputs", "configurations", "histories"], "every mix of variable types and orders, every infill, parallel-point, trust-region, cooperative, clustering and constraint option, every seed and objective",
 "Tests look at the final optimum of smooth runs; intermediate evaluation points and constraint calls are not observed.",
 [E+"solver/solver_impl.rs", E+"solver/solver_infill_optim.rs", E+"solver/trego.rs", E+"gpmix/mixint.rs", E+"egor.rs"],
 [("bounds passed to infill optimisers", E+"solver/solver_infill_optim.rs"), ("discretisation before evaluation", E+"solver/solver_impl.rs:eval_obj"), ("trust region clipping", E+"solver/trego.rs")],
 observe=["objective and constraint closures"],
 technique="runtime monitoring: online domain monitor in the objective and constraint functions",
 note="Held on all calls recorded across the option matrix.")

prop("C18", "Every evaluation is accounted for, exactly once and in order",
 "The history returned (and saved) contains exactly the points the objective was asked for, in order, each with the values it returned: the initial design, then the points added per iteration, unaltered objective and constraint values included. "
 "The number of evaluations never exceeds the initial design plus points-per-iteration times iterations, and no point is added that duplicates an earlier one in the continuous space the optimiser works in.",
 ["histories", "configurations", "inputs"], "every option combination, batch size, constraint set, seed and run length, including early stopping",
 "Tests check history sizes in a couple of runs; value integrity and once-only accounting need the call log.",
 [E+"solver/solver_impl.rs", E+"solver/egor_state.rs", E+"utils/misc.rs", E+"egor.rs"],
 [("points appended after evaluation", E+"solver/solver_impl.rs:ego_step"), ("virtual values replaced by real ones", E+"solver/solver_impl.rs"), ("duplicate rejection", E+"utils/misc.rs:is_update_ok")],
 observe=["objective closure log vs OptimResult and saved files"],
 technique="runtime monitoring: offline conservation checker over recorded evaluation logs",
 note="Held on the runs logged.")

prop("C19", "The reported optimum is the best feasible point evaluated",
 "The reported optimum is one of the evaluated points with its recorded values: judging by the recorded values, the one with the smallest objective among those meeting every constraint within tolerance, or the least violating one when none does. "
 "The incumbent tracked along the run is, at every iteration, that same best point over the evaluations so far, so it never gets worse; the saved history of incumbents agrees.",
 ["histories", "inputs", "configurations"], "every sequence of evaluated values, number and kind of constraints, tolerances, and iteration",
 "Tests compare the final optimum with a known solution on smooth problems; ties, infeasible histories and intermediate incumbents are not covered.",
 [E+"utils/find_result.rs", E+"solver/egor_state.rs", E+"egor.rs", E+"solver/solver_impl.rs"],
 [("best index search", E+"utils/find_result.rs:find_best_result_index"), ("incremental update", E+"utils/find_result.rs:find_best_result_index_from"), ("state update", E+"solver/egor_state.rs:update")],
 observe=["OptimResult, per-iteration state through an observer, egor_history.npy"],
 technique="runtime monitoring: per-iteration incumbent checker against a sequential model",
 note="Held on the iterations observed and on generated histories given to the public best-index search.")

prop("C20", "A seeded optimisation is reproducible",
 "With a given seed and deterministic functions, two runs of the same optimisation evaluate bitwise the same points in the same order and return the same result, whatever the number of worker threads, the speed of the objective, and whether outputs are saved, checkpoints are written or observers are attached. "
 "Different seeds give different searches.",
 ["schedules", "configurations"], "every option combination, thread count, injected delay and side output",
 "Tests rerun one or two configurations in one process on one thread count.",
 [E+"solver/solver_impl.rs", E+"solver/solver_computations.rs", E+"solver/egor_config.rs", M+"clustering.rs", G+"optimization.rs"],
 [("seeded generator carried in the state", E+"solver/egor_state.rs:take_rng"), ("deterministic parallel reduction", E+"solver/solver_infill_optim.rs"), ("seeded multistart", G+"optimization.rs")],
 technique="runtime monitoring: twin-run trace comparison across thread counts, delays and side outputs",
 note="Held on the twin traces recorded.")

prop("C21", "An interrupted run resumes as if it had never stopped",
 "If a seeded run with checkpointing is killed at any point and restarted, it never loses completed iterations recorded by the last checkpoint, re-evaluates at most the work after it, and the points it then evaluates and its final result are those of the uninterrupted run. "
 "A crash while a checkpoint is being written never prevents the restart, and extending a finished run continues its history.",
 ["crash_points", "configurations", "histories"], "every kill point (between and inside evaluations, during checkpoint writing), constraint setting and strategy option",
 "One test stops and restarts a run at an iteration boundary and checks a count; kills, constraints and bitwise continuation are not covered.",
 [E+"utils/hot_start.rs", E+"solver/egor_state.rs", E+"egor.rs", E+"solver/solver_impl.rs"],
 [("checkpoint after each iteration", E+"utils/hot_start.rs"), ("resume", E+"egor.rs:run"), ("serialised state incl. generator", E+"solver/egor_state.rs")],
 technique="runtime monitoring: kill-and-resume fault injection with trace continuation oracle",
 note="Held on the crash points injected (process kill at evaluations, SIGKILL at random instants, torn checkpoint writes).", level="fault_enumeration")

prop("C22", "Supplied and saved designs are used and stored faithfully",
 "An initial design supplied by the user is evaluated exactly as given when it has inputs only and used without re-evaluation when it has outputs too; otherwise the requested number of points is drawn in the design space. "
 "The files written to the output directory hold exactly the evaluated history, and a warm start from them reuses every previously evaluated point and value as its history, constraints included.",
 ["configurations", "histories", "inputs"], "every design shape, variable typing, number of constraints of each kind, seed and output option",
 "Tests cover a supplied 1-D design and one warm start without function constraints.",
 [E+"solver/solver_impl.rs", E+"solver/egor_config.rs", E+"egor.rs"],
 [("initial design selection", E+"solver/solver_impl.rs:init"), ("saving", E+"solver/solver_impl.rs"), ("warm start", E+"solver/egor_config.rs:warm_start")],
 technique="runtime monitoring: evaluation log vs supplied and saved design files",
 note="Held on the runs and files observed.")

prop("C23", "The ask-and-tell service proposes valid points and depends only on its inputs",
 "Given any history of points and values, the suggestion service returns exactly the requested number of points, all admissible in the design space, and depends only on its inputs and seed, whatever was asked before and on any number of threads. "
 "Given a history with a feasible point, it suggests what the built-in optimisation given the same design evaluates first (up to points it rejects as already known). Driving an ask-and-tell loop makes progress, with constraints too.",
 ["inputs", "histories", "configurations"], "every history size, variable typing, constraint count, batch size, strategy and seed",
 "One or two tests run a loop on a 1-D function.",
 [E+"solver/egor_service.rs", E+"solver/egor_solver.rs"],
 [("suggest", E+"solver/egor_service.rs:suggest"), ("one step on supplied data", E+"solver/egor_solver.rs:suggest")],
 technique="runtime monitoring: admissibility and purity monitor over ask-and-tell histories",
 note="Held on the histories driven.")

prop("C24", "Infill criteria equal their definitions",
 "At any point of any model, expected improvement equals the expectation of the improvement over the incumbent under the predicted normal law (with the deviation multiplied by the sigma weight in use), is non-negative, and its logarithmic variant is its logarithm, finite and accurate even where the improvement underflows; the Watson-Barnes criteria equal the improvement minus the predicted mean, the scaled one with the improvement weighted by 100 times the ratio of the mean to the improvement at the sample point of largest improvement. "
 "Where the surrogate reports exactly no uncertainty the improvement is null. The gradients of the criteria are the derivatives of their values.",
 ["inputs", "configurations"], "every model, incumbent, scaling and query point, including deep tails and points of vanishing variance",
 "Tests check derivatives on one 1-D model and a few tail values.",
 [E+"criteria/ei.rs", E+"criteria/wb2.rs", E+"utils/logei_helper.rs"],
 [("EI", E+"criteria/ei.rs"), ("log EI helper", E+"utils/logei_helper.rs"), ("WB2", E+"criteria/wb2.rs")],
 technique="runtime monitoring: independent numerical-quadrature and finite-difference oracle",
 note="Held on the models and points tried.")

prop("C25", "Constraint surrogates are used with their documented meaning",
 "The quantity used for a modelled constraint during infill is its predicted mean, or the predicted mean plus three standard deviations under the trust-bound strategy, required to be negative; with feasibility weighting the criterion is the base criterion times the product of the probabilities that each constraint is met within its tolerance (in logarithmic form: plus the sum of the log-probabilities, floored at the machine epsilon). "
 "The gradients handed to the infill optimiser are the derivatives of these values, and the point chosen, over populations of iterations, satisfies these constraints and nearly maximises the criterion under them.",
 ["inputs", "configurations"], "every constraint model, tolerance, number of constraints, input dimension, infill optimiser and query point",
 "Tests run constrained optimisations to a loose optimum; per-point values and gradients with several dimensions are not checked.",
 [E+"solver/solver_computations.rs", E+"utils/cstr_pof.rs", E+"solver/egor_solver.rs", E+"solver/solver_infill_optim.rs"],
 [("mean constraint", E+"solver/solver_computations.rs:mean_cstr"), ("upper trust bound", E+"solver/solver_computations.rs:upper_trust_bound_cstr"), ("probability of feasibility", E+"utils/cstr_pof.rs"), ("infill optimisation", E+"solver/solver_infill_optim.rs")],
 technique="runtime monitoring: reference formulas and finite differences on the public solver entry points; population monitor of the points chosen on closed-form surrogates",
 note="Held on the models and points tried; the choice of points is decided on populations.")

prop("C26", "Optimisation exploits what it learns",
 "On standard smooth test problems within a modest budget, continuous or mixed-integer, constrained or not, the optimiser gets much closer to the known optimum than its initial design and than random search with the same budget, for every infill criterion and strategy, in the large majority of seeds. "
 "When the optimum is feasible the reported optimum is feasible.",
 ["inputs", "configurations"], "every strategy option and seed on a family of known problems (randomly shifted and scaled)",
 "Tests run one seed per option and often only check that the run ends.",
 [E+"solver/solver_impl.rs", E+"solver/solver_computations.rs", E+"solver/solver_infill_optim.rs", E+"optimizers/optimizer.rs"],
 [("surrogate training", E+"solver/solver_impl.rs"), ("infill maximisation", E+"solver/solver_infill_optim.rs")],
 technique="runtime monitoring: regret monitor over populations of seeded runs with known optima",
 note="Statistical: decided on medians over seeds with wide margins.")

prop("C27", "Runs stop exactly when they are told to",
 "A run performs no more than the allowed number of iterations, stops as soon as the objective of its incumbent reaches the target, and never before that unless no new point can be added; the termination reason, the iteration count and the last improving iteration reported match what happened. "
 "A run allowed zero iterations returns the best of its initial design, and a smaller budget or a target only cuts the same sequence of evaluations short.",
 ["configurations", "histories"], "every iteration budget, target value, batch size and strategy",
 "Tests check the default budget and one target on one function.",
 [E+"solver/egor_state.rs", E+"egor.rs", E+"solver/solver_impl.rs"],
 [("argmin executor termination", E+"solver/egor_state.rs"), ("iteration counting", E+"solver/solver_impl.rs:next_iter")],
 technique="runtime monitoring: termination monitor over recorded runs",
 note="Held on the runs recorded.")

prop("C28", "Trust-region and cooperative search respect their local scope",
 "With trust-region search, global and local steps alternate as configured (a global step every five iterations or after a successful global step), the region size starts at its initial value, grows by its factor exactly after a sufficient improvement and shrinks exactly after a local step without one, local searches start within the trust region around the incumbent and local steps add one point near it. "
 "With cooperative search every iteration splits the variables into the requested number of balanced groups, each variable in exactly one, redrawn every iteration; the search of a group leaves the variables of the other groups untouched.",
 ["histories", "configurations", "inputs"], "every trust-region run length, success pattern, group count, dimension and objective",
 "Tests only check final optima of one run each.",
 [E+"solver/trego.rs", E+"solver/coego.rs", E+"solver/egor_solver.rs", E+"solver/solver_infill_optim.rs"],
 [("trust region phases and size update", E+"solver/egor_solver.rs:trego_iteration"), ("local step", E+"solver/trego.rs:trego_step"), ("random activity groups", E+"solver/coego.rs:get_random_activity")],
 technique="runtime monitoring: state-trace checker against a model of phases, sizes and groups; online monitor of constraint-function calls",
 note="Held on the state traces recorded, but for the known finding on the scope of local steps.")

prop("C29", "The Python interface behaves like the library it wraps",
 "Options given in Python reach the optimiser unchanged and arrays cross the boundary without alteration: points given to Python objectives and constraints are admissible, the returned optimum and history are those evaluated, the best-of-history helpers agree with the history for any number of constraints, and seeded results are reproducible. "
 "Sampling, surrogate training, prediction, gradients, saving and loading through Python satisfy the same relations as in the library.",
 ["inputs", "configurations", "histories"], "every entry point and keyword of the module, variable typing, constraint count and seed",
 "Python tests run a few fixed optimisations with loose thresholds.",
 ["python/src/egor.rs", "python/src/gp_mix.rs", "python/src/sparse_gp_mix.rs", "python/src/sampling.rs", "python/src/domain.rs", "python/src/gp_config.rs"],
 [("argument mapping", "python/src/egor.rs:minimize"), ("best result helpers", "python/src/egor.rs:get_result"), ("surrogates", "python/src/gp_mix.rs")],
 technique="runtime monitoring: call-log monitor around the built extension module",
 note="Held on the calls recorded from Python.")

prop("C30", "Mixed-integer surrogates equal continuous ones on discretised points",
 "A surrogate trained through the mixed-integer layer predicts, at any point given in its working space, relaxed or discrete, exactly what the continuous surrogate trained on the one-hot encoded data predicts at the nearest admissible point: values, variances and gradients. "
 "It keeps its training data in the caller's space, its cross-validation scores are those of the continuous surrogate, and it survives saving and loading in every format; damaged files and impossible paths are reported as errors.",
 ["inputs", "configurations"], "every list of variable types, folded or unfolded working space, regression, correlation, number of clusters and query point",
 "Tests train two or three mixed-integer surrogates on tiny designs and look at a few predictions.",
 [E+"gpmix/mixint.rs"],
 [("folded/unfolded surrogate", E+"gpmix/mixint.rs:MixintGpMixture"), ("discretisation of queries", E+"gpmix/mixint.rs:to_discrete_space")],
 technique="runtime monitoring: differential oracle against the continuous mixture on one-hot data",
 note="Held on the models and points tried.")


prop("C31", "Batches are built on pretended values, which never replace real ones",
 "When several points are asked at a time they are chosen one after another, the surrogates being retrained with the previous points of the batch and the values prescribed by the strategy: the predicted mean (Kriging believer), the mean minus or plus three standard deviations (lower and upper bound variants), or the values at the current minimum (constant liar); constraints take their predicted mean (or their values at the current minimum). "
 "A batch holds no more points than asked, the points pretended are those then evaluated, pretended values are replaced by the real ones and no evaluated point is ever left out of a training set or trained with another value.",
 ["histories", "configurations", "inputs"], "every batch strategy, batch size, number of constraints, criterion, local strategy and history",
 "Tests only look at the final optimum of one run for one strategy.",
 [E+"solver/solver_computations.rs", E+"solver/solver_impl.rs", E+"utils/misc.rs"],
 [("pretended values", E+"solver/solver_computations.rs:compute_virtual_point"), ("batch loop", E+"solver/solver_impl.rs:select_next_points"), ("real values", E+"utils/misc.rs:update_data")],
 technique="runtime monitoring: trace checker over the training sets received by recording closed-form surrogates",
 note="Held on the training sets recorded.")


prop("C32", "Surrogates are trained as configured",
 "Every surrogate the optimiser trains receives the configured regression and correlation families, PLS dimension, number of starts and evaluations, hyperparameter tuning (fixed, partial or full, with its bounds), number of clusters and recombination, for the objective and each constraint, on all evaluated points and nothing else but pretended ones. "
 "The hyperparameters optimised at the configured intervals are reused in between; only the active components are tuned with cooperative search. Automatic clusters are found at start and refreshed every ten added points.",
 ["configurations", "histories", "inputs"], "every surrogate configuration, optimisation interval, batch size, number of constraints, local strategy and history",
 "Tests only look at final optima, which a mistrained surrogate often reaches too.",
 [E+"solver/solver_impl.rs", E+"solver/coego.rs", E+"solver/egor_config.rs", E+"gpmix/mixint.rs"],
 [("training", E+"solver/solver_impl.rs:make_clustered_surrogate"), ("refresh of clusters", E+"solver/solver_impl.rs:have_to_recluster"), ("tuning of active components", E+"solver/coego.rs:make_theta_tuning")],
 technique="runtime monitoring: trace checker over the training requests received by a recording surrogate builder",
 note="Held on the training requests recorded.")


NA = {}  # id -> reason

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    IMPL = set(open(os.path.join(ROOT,"tools","implemented.txt")).read().split())
    for p in P:
        if p["id"] not in IMPL and p["claimed"]:
            p["claimed"] = False; p["reason"] = "check under construction"
    checks = [dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
                   technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["claimed"]]
    na = [dict(property=p["id"], reason=p["reason"]) for p in P if not p["claimed"]]
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                   notes="All checks: ./check <ID> (rebuilds harness against /repo's working tree). See DESIGN.md."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks")

if __name__ == "__main__":
    main()
