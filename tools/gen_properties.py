#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


S = "src/limbo/"
p("C01", "Gaussian-process predictions equal the exact posterior",
  "For any data, prior mean and positive definite covariance, the predicted mean and variance of a Gaussian process (separately or in one combined query) equal the closed-form posterior m(x)+k'K^-1(y-m) and k(x,x)-k'K^-1k plus the observation noise. The variance is never below the observation noise. Without data the prediction is the prior mean and the prior variance.",
  ["inputs", "configurations"], "all observations, prior means, positive definite covariance matrices, query covariances, 0..n samples, several outputs",
  "Tests compare a handful of concrete data sets with loose tolerances; an error that needs several outputs, a non-constant mean or a particular covariance pattern is not sampled.",
  [S + "model/gp.hpp"], [("posterior mean / variance / query", S + "model/gp.hpp: mu, sigma, query, _mu, _sigma, _compute_k"), ("Cholesky and weights", S + "model/gp.hpp: _compute_full_kernel, _compute_alpha")])
p("C02", "Adding data one by one equals fitting all data at once",
  "A Gaussian process updated sample by sample, in any mixture of batch fits, single additions, parameter changes followed by a refit, and repeated refits, predicts exactly what a model freshly fitted on all its data with its current parameters predicts. Every derived quantity asked for afterwards (covariance factor, weights, mean observation, centred data, likelihood, leave-one-out score, gradients) reflects the current data and parameters, never an earlier state.",
  ["histories", "inputs"], "histories of fits, additions, refits and parameter changes up to a bound, all data values and covariances",
  "Tests run one fixed history per feature; stale caches need a specific order of calls to show.",
  [S + "model/gp.hpp"], [("incremental Cholesky update", S + "model/gp.hpp: add_sample, _compute_incremental_kernel"), ("inverse-covariance cache", S + "model/gp.hpp: _inv_kernel_updated"), ("refit", S + "model/gp.hpp: recompute, compute")])
p("C03", "Reported log-likelihood and its gradients are exact",
  "The reported log marginal likelihood equals -1/2 y'K^-1y - 1/2 log det K - n/2 log 2pi of the centred data, and the reported gradients with respect to kernel parameters (noise included when it is optimised) and prior-mean parameters are the derivatives of the reported value.",
  ["inputs", "configurations"], "all data, positive definite covariances and covariance derivatives, several outputs and parameters",
  "Tests compare the gradient with finite differences at a few random points with a loose threshold and never check the value itself.",
  [S + "model/gp.hpp"], [("value", S + "model/gp.hpp: compute_log_lik"), ("gradients", S + "model/gp.hpp: compute_kernel_grad_log_lik, compute_mean_grad_log_lik")])
p("C04", "Leave-one-out score and its gradient are exact",
  "The leave-one-out cross-validation score equals the sum over samples of the log density of that sample under the posterior of the model fitted on all other samples, and its reported gradient is the derivative of the score with respect to the kernel parameters.",
  ["inputs", "configurations"], "all data and positive definite covariances, several outputs and parameters",
  "Tests check the gradient against finite differences only, at a few points; the score itself is never compared to a real leave-one-out computation.",
  [S + "model/gp.hpp"], [("score", S + "model/gp.hpp: compute_log_loo_cv"), ("gradient", S + "model/gp.hpp: compute_kernel_grad_log_loo_cv")])
p("C05", "Hyper-parameter tuning leaves the model on the optimiser's result",
  "During tuning the inner optimiser is offered exactly the model's own score (likelihood, leave-one-out or likelihood over mean parameters) and its gradient at the parameters it proposes. Afterwards the model carries the parameters the optimiser returned, its stored score is the score at those parameters, and all its predictions are those of a model refitted with them; the data are untouched.",
  ["inputs", "histories"], "all optimiser behaviours (any number of evaluations at any parameters, any returned point, with and without gradient), several rounds of tuning and data additions",
  "Tests run one optimiser on one data set and check only that the likelihood improved.",
  [S + "model/gp/kernel_lf_opt.hpp", S + "model/gp/kernel_loo_opt.hpp", S + "model/gp/kernel_mean_lf_opt.hpp", S + "model/gp/mean_lf_opt.hpp", S + "model/gp/no_lf_opt.hpp", S + "model/multi_gp/parallel_lf_opt.hpp"],
  [("tuning objective and installation of the result", S + "model/gp/*_opt.hpp: operator(), *Optimization::operator()"), ("one tuning per output", S + "model/multi_gp/parallel_lf_opt.hpp")])
p("C06", "Multi-output models equal independent single-output models",
  "A model built from one Gaussian process per output predicts, for each output, exactly what a single-output process on that output's data predicts, with the common prior mean subtracted before and added back after. This holds after batch fits, one-by-one additions and refits, and with prior means that depend on the data.",
  ["histories", "inputs"], "all data, prior means and covariances, histories of fits, additions and refits",
  "Tests use one history with concrete values and a zero or constant mean.",
  [S + "model/multi_gp.hpp"], [("per-output processes and common mean", S + "model/multi_gp.hpp: compute, add_sample, query, mu, sigma, recompute")])
p("C07", "Sparsified models keep the right subset of the data",
  "A sparsified model keeps at most the configured number of points, each with its own observation, and keeps everything when there is no excess. Each removal drops one point of a currently closest-packed group (smallest summed distance to its nearest neighbours), so the surviving set is what repeated removal of the densest point gives; predictions equal those of a plain model fitted on the survivors.",
  ["inputs", "histories"], "all sample positions and observations up to a size bound, batch fits and one-by-one additions",
  "Tests only check accuracy on one function and the resulting size.",
  [S + "model/sparsified_gp.hpp"], [("densest-point removal", S + "model/sparsified_gp.hpp: _sparsify, _get_most_dense_point, _get_denser_points")])
p("C08", "A saved model loads back unchanged",
  "Saving a model and loading it into a fresh one, through the text or the binary archive, with or without recomputation, restores samples, observations and parameters exactly and gives the same predictions, scores and gradients as the original; the loaded model can then be extended and refitted like the original. Archived matrices and vectors of any shape come back bit for bit for every finite value.",
  ["inputs", "histories"], "all finite values, shapes up to a bound, all archive types and load modes, continuations after the load",
  "The serialisation tests are not even part of the stable suite and compare a few values within 1e-10.",
  [S + "serialize/text_archive.hpp", S + "serialize/binary_archive.hpp", S + "model/gp.hpp", S + "model/multi_gp.hpp"],
  [("text archive", S + "serialize/text_archive.hpp"), ("binary archive", S + "serialize/binary_archive.hpp"), ("model state", S + "model/gp.hpp: save, load"), ("multi-output state", S + "model/multi_gp.hpp: save, load")])
p("C09", "Kernels compute their documented covariance",
  "Every kernel equals its documented formula for all inputs and hyper-parameters, is symmetric in its two points, and adds the observation noise exactly when the two arguments are the same sample. Setting parameters (in log space) and reading them back is the identity, and the parameter count matches the vector, with or without noise optimisation and low-rank factors.",
  ["inputs", "configurations"], "all point pairs (1..3 dimensions), all hyper-parameters, noise optimised or not, factor rank 0..2",
  "Tests check two kernels at a few points.",
  [S + "kernel/kernel.hpp", S + "kernel/exp.hpp", S + "kernel/matern_three_halves.hpp", S + "kernel/matern_five_halves.hpp", S + "kernel/squared_exp_ard.hpp"],
  [("covariance formulas", S + "kernel/*.hpp: kernel"), ("noise and parameters", S + "kernel/kernel.hpp")])
p("C10", "Kernel gradients are the derivatives of the kernels",
  "For every kernel, all pairs of points and all hyper-parameters, each entry of the reported gradient is the partial derivative of the kernel value with respect to the corresponding log-space parameter, including the noise entry (which is nonzero only for a sample with itself).",
  ["inputs", "configurations"], "all point pairs (1..3 dimensions), all hyper-parameters, noise optimised or not, factor rank 0..2",
  "Tests compare with finite differences at random points with a loose threshold.",
  [S + "kernel/kernel.hpp", S + "kernel/exp.hpp", S + "kernel/matern_three_halves.hpp", S + "kernel/matern_five_halves.hpp", S + "kernel/squared_exp_ard.hpp"],
  [("gradients", S + "kernel/*.hpp: gradient, BaseKernel::grad")])
p("C11", "Prior mean functions and their gradients are exact",
  "Each prior mean returns its documented value in every output (zero, constant, data mean, or an affine transform of a user mean), its parameters survive a set/get round trip, and its gradient is the derivative of the value with respect to its parameters. The data-driven mean always equals the average of the model's current observations.",
  ["inputs", "histories"], "all inputs, parameters, outputs 1..3, data histories",
  "Tests check a few concrete values.",
  [S + "mean/constant.hpp", S + "mean/data.hpp", S + "mean/null_function.hpp", S + "mean/function_ard.hpp"],
  [("mean values, gradients", S + "mean/*.hpp")])
p("C12", "Acquisition functions equal their published formulas",
  "Upper confidence bound, GP-UCB and expected improvement return their documented formula for every model prediction, parameter, iteration and aggregation function, are defined (never NaN) from the first iteration on, and expected improvement is zero when the predicted deviation vanishes and never negative.",
  ["inputs", "histories"], "all predicted means and variances, data sets, exploration parameters, iterations 0..n, scalar aggregators",
  "Acquisition functions are only exercised inside whole optimisation runs whose results are compared loosely.",
  [S + "acqui/ucb.hpp", S + "acqui/gp_ucb.hpp", S + "acqui/ei.hpp"], [("formulas", S + "acqui/*.hpp: operator()")])
p("C13", "Bounded optimisation never leaves the unit box",
  "When an inner optimiser is asked to respect bounds, every point at which it evaluates the objective and the point it returns lie in [0,1] in every coordinate, for every finite starting point, every finite-valued objective and gradient and every random draw; returned points are finite and of the right dimension.",
  ["inputs", "histories"], "all objectives (values and gradients), all starts, all random draws, iterations up to a bound, bins and dimensions up to a bound",
  "Tests run smooth convex objectives whose optimum is inside the box.",
  [S + "opt/rprop.hpp", S + "opt/adam.hpp", S + "opt/gradient_ascent.hpp", S + "opt/grid_search.hpp", S + "opt/random_point.hpp", S + "opt/parallel_repeater.hpp", S + "opt/chained.hpp", S + "opt/nlopt_base.hpp"],
  [("clamping / sampling", S + "opt/*.hpp: operator()")])
p("C14", "Inner optimisers follow their update rule and keep the best",
  "Rprop returns a best point among those it evaluated and never one worse than its start; grid search returns a maximiser over its grid, which covers the box from 0 to 1 at the configured resolution; the repeated optimiser returns the best of its restarts; chaining feeds each stage the result of the previous one. Rprop, gradient ascent and Adam perform exactly their published update until the iteration limit or the stop threshold (gradient norm for Rprop, step norm for the other two) is met.",
  ["inputs", "histories"], "all objectives (values and gradients), iterations up to a bound, all random draws",
  "Tests only check that a known optimum is approached.",
  [S + "opt/rprop.hpp", S + "opt/adam.hpp", S + "opt/gradient_ascent.hpp", S + "opt/grid_search.hpp", S + "opt/parallel_repeater.hpp", S + "opt/chained.hpp"],
  [("updates, best-so-far", S + "opt/*.hpp: operator()")])
p("C15", "External optimiser wrappers pass the problem through faithfully",
  "The wrappers around the external optimisation library maximise the given objective from the given start, hand over gradients exactly when the algorithm needs them, set [0,1] bounds exactly when asked, install every constraint and tolerance, and return the library's answer; a failure reported by the library (other than running out of memory) never escapes and never yields a point outside the bounds, and a wrapper can be used again for another problem.",
  ["inputs", "fault_sequences"], "all objectives, starts and library behaviours (evaluation sequences, results, failures)",
  "Tests run two algorithms on one quadratic.",
  [S + "opt/nlopt_base.hpp", S + "opt/nlopt_grad.hpp", S + "opt/nlopt_no_grad.hpp"], [("wrapping", S + "opt/nlopt_*.hpp")])
p("C16", "Initial designs evaluate the promised points",
  "Random, Latin hypercube, grid and random-grid designs evaluate the promised number of points, each inside [0,1]^d when bounded: Latin hypercube puts exactly one point into each of the n equal slices of every dimension, the grid visits every combination of the b+1 levels from 0 to 1 exactly once, and the random grid draws points of that grid only, every level of every dimension being possible. Coordinates and points are drawn independently, Latin hypercube slices are shuffled independently per dimension. Every point is passed to the objective exactly once and recorded with its own result.",
  ["inputs", "configurations"], "all random draws, dimensions 1..3, sample counts and bin counts up to a bound (every bin count for the grid levels)",
  "Tests check counts for one configuration each.",
  [S + "init/random_sampling.hpp", S + "init/lhs.hpp", S + "init/grid_sampling.hpp", S + "init/random_sampling_grid.hpp", S + "init/no_init.hpp", S + "tools/random_generator.hpp"],
  [("designs", S + "init/*.hpp: operator()")])
p("C17", "The optimisation loop evaluates what it selects and learns what it sees",
  "Each iteration evaluates the objective exactly once, at the point the acquisition optimiser returned for the model of all data so far; the pair is appended to the history, added to the model, and counted, so history, model and counters always agree. Initialisation runs exactly when no iteration has been made yet, hyper-parameters are tuned exactly at the configured period, the loop ends exactly when a stopping criterion holds, and a run without reset continues the previous one.",
  ["histories", "inputs"], "all objective values, acquisition choices and parameters, iteration counts up to a bound, several consecutive runs with and without reset",
  "Tests run whole optimisations and look only at the final optimum.",
  [S + "bayes_opt/boptimizer.hpp", S + "bayes_opt/bo_base.hpp"], [("loop", S + "bayes_opt/boptimizer.hpp: optimize"), ("history", S + "bayes_opt/bo_base.hpp: eval_and_add, add_new_sample, _init")])
p("C18", "Invalid evaluations never contaminate the history",
  "An evaluation that returns a NaN or infinite component, or that throws the documented evaluation error, is rejected by raising the documented evaluation error: no history entry, no observation and no model update results from it, earlier data are untouched, samples and observations stay aligned, and the optimiser can be continued afterwards from the recorded history.",
  ["inputs", "fault_sequences"], "all double values including NaN and infinities in any component, rejections at any evaluation (initialisation or loop)",
  "No test produces an invalid observation.",
  [S + "bayes_opt/bo_base.hpp", S + "tools/math.hpp", S + "bayes_opt/boptimizer.hpp"], [("rejection", S + "bayes_opt/bo_base.hpp: add_new_sample, eval_and_add"), ("test for invalid values", S + "tools/math.hpp: is_nan_or_inf")])
p("C19", "The reported best is the best seen",
  "The reported best observation maximises the aggregated objective over all recorded observations, and the reported best sample is a sample at which exactly that observation was made, for every aggregation function and every history including negative, tied and very small values.",
  ["inputs", "histories"], "all observation values, histories up to a bound, aggregation functions",
  "Tests only look at the best of converged runs.",
  [S + "bayes_opt/boptimizer.hpp"], [("best", S + "bayes_opt/boptimizer.hpp: best_observation, best_sample")])
p("C20", "Stopping criteria fire exactly when documented",
  "The iteration criterion stops at exactly the configured number of iterations, the predicted-value criterion stops exactly when the best observation exceeds the configured fraction of the highest predicted mean its optimiser finds over the box, and a combination stops as soon as any of its criteria does.",
  ["inputs", "histories"], "all models' predictions, observations, ratios, iteration counts up to a bound, all combinations",
  "Only the iteration criterion is exercised, by runs that never depend on its exact value.",
  [S + "stop/max_iterations.hpp", S + "stop/max_predicted_value.hpp", S + "stop/chain_criteria.hpp"], [("criteria", S + "stop/*.hpp: operator()")])
p("C21", "Statistics record what happened",
  "Every statistics file has one record per recorded event in order: samples, observations, aggregated and best values, acquisition values, predictions, parameters and scores written for an iteration are those of that iteration (predictions by the model that selected the point), the best-so-far series equal the running best of the history, the map of the model covers the grid from 0 to 1, and the written values read back as the true ones to the written precision.",
  ["histories", "inputs"], "all histories up to a bound of initial samples and iterations, all values",
  "No test reads any statistics file.",
  [S + "stat/stat_base.hpp", S + "stat/samples.hpp", S + "stat/observations.hpp", S + "stat/aggregated_observations.hpp", S + "stat/best_aggregated_observations.hpp", S + "stat/best_observations.hpp", S + "stat/best_samples.hpp", S + "stat/gp_acquisitions.hpp", S + "stat/gp_kernel_hparams.hpp", S + "stat/gp_mean_hparams.hpp", S + "stat/gp_prediction_differences.hpp", S + "stat/gp_likelihood.hpp", S + "stat/gp.hpp"],
  [("records", S + "stat/*.hpp: operator()")])
p("C22", "Parallel helpers give the sequential result under every schedule",
  "The parallel loop runs its body exactly once per index, the parallel maximum returns a maximal element, the parallel sort returns a sorted permutation, replication runs the body the asked number of times, and concurrent containers convert without loss, in every order and every grouping of the work the threading library may choose; the models, optimisers and Pareto tools that use the helpers get schedule-independent results, and no two concurrent pieces of their work access the same memory, one of them writing, without a common lock.",
  ["schedules", "inputs"], "every execution order and reduction grouping up to a bound of work items, all values",
  "Tests run whatever schedule happens, on machines where the work is often done by one thread.",
  [S + "tools/parallel.hpp", S + "opt/parallel_repeater.hpp", S + "model/multi_gp.hpp", S + "model/multi_gp/parallel_lf_opt.hpp", S + "model/sparsified_gp.hpp"],
  [("helpers", S + "tools/parallel.hpp: loop, for_each, max, sort, replicate, convert_vector")])
p("C23", "Numeric and random helpers respect their contracts",
  "Random vectors have the requested dimension and stay in [0,1] when bounded, random numbers stay in the requested range, and the sign function, the invalid-value test and the vector constructors return their documented value for every double.",
  ["inputs"], "all doubles including NaN, infinities and signed zeros; all random draws",
  "Tests do not call most of them and sample a few values of the rest.",
  [S + "tools/math.hpp", S + "tools/random_generator.hpp"], [("helpers", S + "tools/math.hpp"), ("random vectors", S + "tools/random_generator.hpp")])
p("C24", "The Pareto set is exactly the set of non-dominated points",
  "Given any finite set of objective vectors, the computed Pareto set contains exactly the points that no other point dominates, each with its own identifier and value, whatever the order of the points and in the presence of ties and duplicates.",
  ["inputs"], "all sets of up to n points in up to m objectives, ties and duplicates included",
  "No test covers it.",
  [S + "experimental/tools/pareto.hpp", S + "experimental/bayes_opt/bo_multi.hpp"], [("dominance and set construction", S + "experimental/tools/pareto.hpp: pareto_set, dominate_flex"), ("front of the optimiser", S + "experimental/bayes_opt/bo_multi.hpp: update_pareto_data, update_pareto_model")])
p("C25", "ParEGO scalarisation is the documented augmented Tchebycheff",
  "The scalarised observation used by the multi-objective optimiser is the augmented weighted Tchebycheff value of the observation with the drawn nonnegative weights, and the single-objective model it trains is the model of those scalarised values for all observations; no named template argument is ignored.",
  ["inputs", "histories"], "all observations, weights and histories up to a bound",
  "No test covers it.",
  [S + "experimental/model/gp_parego.hpp"], [("scalarisation", S + "experimental/model/gp_parego.hpp")])
p("C26", "Constrained optimisation records what it evaluated",
  "In the constrained optimiser every evaluation's objective and constraint values are recorded and taught to the two models, the reported best is the best among feasible points (all constraint values, which are nonnegative, are positive) with the sample that produced it (falling back to the best overall when nothing is feasible), no named argument is ignored, and constrained expected improvement is the expected improvement weighted by the probability that the (single) constraint is at least 1.",
  ["histories", "inputs"], "all objective and constraint values, histories up to a bound",
  "The constrained example is built but not run by the suite.",
  [S + "experimental/bayes_opt/cboptimizer.hpp", S + "experimental/acqui/eci.hpp"], [("loop", S + "experimental/bayes_opt/cboptimizer.hpp: optimize"), ("best feasible", S + "experimental/bayes_opt/cboptimizer.hpp: best_observation, best_sample"), ("acquisition", S + "experimental/acqui/eci.hpp")])
p("C27", "Tree-based optimistic optimisation follows the published algorithm",
  "The tree-based optimiser (IMGPO) keeps a tree whose leaf cells tile the unit box: a split divides a cell in three along its longest side, every sample is the centre of its cell, and the middle child keeps its parent's sample and value. No point is evaluated twice, every evaluation is recorded with the objective's value, and cells carry that value when evaluated and their optimistic bound otherwise. An iteration evaluates the most promising leaf of each level, splits those that survive the simulated deeper expansion and beat the levels above, and evaluates a new cell exactly when its bound exceeds the best value; iterations count evaluations, and a run without reset continues the tree.",
  ["histories", "inputs"], "all objective values and model predictions, expansions up to a bound, in 1..3 dimensions, any scalar aggregator",
  "The example is built but not run by the suite.",
  [S + "experimental/bayes_opt/imgpo.hpp", S + "experimental/acqui/ucb_imgpo.hpp"], [("tree expansion", S + "experimental/bayes_opt/imgpo.hpp: optimize"), ("optimistic bound", S + "experimental/acqui/ucb_imgpo.hpp")])
p("C28", "Sparse pseudo-input model reproduces its published predictor",
  "For single-output data, the sparse pseudo-input Gaussian process predicts (mean, variance, and their multi-query forms) what the published pseudo-input approximation gives for its data, its pseudo-inputs and its hyper-parameters, whichever way it was built (constructor, compute, adding samples, recomputing, re-optimising hyper-parameters), and the prior without samples. The likelihood it optimises is that approximation's negative log marginal likelihood and the gradient is its derivative; the optimiser starts from pseudo-inputs that are distinct training samples, whose number is the configured share of the samples, at least the configured minimum and never more than the samples.",
  ["inputs", "histories"], "all data, pseudo-inputs and parameters up to a size bound",
  "No test covers it.",
  [S + "experimental/model/spgp.hpp"], [("prediction and likelihood", S + "experimental/model/spgp.hpp")])
p("C29", "CMA-ES wrapper gives the library the user's problem and returns its answer",
  "The CMA-ES wrapper makes the library search for the maximum of the given objective from the given starting point, within the configured bounds when asked for a bounded search and without bounds otherwise, with the configured variant, population, limits, tolerances, target and options, and calls the user's progress function. It returns, in the user's coordinates, the best point the library saw, or the mean of its last distribution for stochastic or uncertain objectives.",
  ["inputs"], "all objectives, starting points, bounds, parameter values and answers of the library",
  "The library is not available, so the code is not compiled by any test.",
  [S + "opt/cmaes.hpp"], [("wrapper", S + "opt/cmaes.hpp: operator(), _opt_bounded, _opt_unbounded, _set_common_params")])
p("C30", "Multi-objective search evaluates the point it predicts to be most useful",
  "The hypervolume-based optimiser (two objectives, at least one initial sample) keeps one model per objective, trained on all the data, and at each iteration starts a search of the expected hypervolume improvement of the models' predicted means and standard deviations over the current front and reference from every point of the front, then evaluates the returned point with the greatest expected improvement. The sorting-based optimiser evaluates a point of the predicted front that no other point of it exceeds in predicted variance, that front being made of the points the evolutionary search found with their predicted means, capped at the best observation, and their predicted variances. History, counts and statistics agree with the evaluations and no named template argument is ignored.",
  ["inputs", "histories"], "all fronts, predictions, values in any order, and answers of the inner searches, up to a bound of evaluations",
  "The example is built but not run; the evolutionary library it needs is absent.",
  [S + "experimental/bayes_opt/ehvi.hpp", S + "experimental/acqui/ehvi.hpp", S + "experimental/bayes_opt/nsbo.hpp", S + "experimental/bayes_opt/bo_multi.hpp"], [("selection", S + "experimental/bayes_opt/ehvi.hpp: optimize"), ("acquisition", S + "experimental/acqui/ehvi.hpp"), ("sorting-based selection", S + "experimental/bayes_opt/nsbo.hpp"), ("front of the models", S + "experimental/bayes_opt/bo_multi.hpp: update_pareto_model")])
p("C31", "Hypervolumes are exact",
  "The hypervolume of a set of points above the origin is the volume of the union of the boxes they span, for any number of objectives and any order, duplicates and ties; filtering keeps exactly the non-dominated points and changes none. The hypervolume statistic writes, each iteration, the volume the observations dominate above its reference. The areas and box volumes the improvement library computes are those of the union of the points' boxes clipped to the given corners.",
  ["inputs"], "all point sets up to a bound in every order, all references and corners",
  "No test covers it.",
  ["src/hv/hypervol.c", S + "experimental/stat/hyper_volume.hpp", "src/ehvi/ehvi_hvol.cc"], [("hypervolume", "src/hv/hypervol.c: FilterNondominatedSet, CalculateHypervolume"), ("statistic", S + "experimental/stat/hyper_volume.hpp"), ("slices and boxes", "src/ehvi/ehvi_hvol.cc: calculateS, calculateslice, hvol3d")])
p("C32", "Expected hypervolume improvement is computed exactly",
  "The expected hypervolume improvement library returns, for a non-dominated front above its reference point and an independent normal prediction (mean and standard deviation per objective), the expected growth of the dominated hypervolume: in two objectives with any front including an empty one and duplicates, and in three objectives with every exact scheme (2-term, 5-term, 8-term, slice update, and the versions for several predictions), whatever the order of the front.",
  ["inputs"], "all fronts up to a bound in every order, all references, means and standard deviations",
  "No test covers it.",
  ["src/ehvi/ehvi_calculations.cc", "src/ehvi/ehvi_sliceupdate.cc", "src/ehvi/ehvi_multi.cc", "src/ehvi/ehvi_hvol.cc", "src/ehvi/helper.cc"], [("two objectives", "src/ehvi/ehvi_calculations.cc: ehvi2d"), ("three objectives", "src/ehvi/ehvi_calculations.cc, ehvi_sliceupdate.cc, ehvi_multi.cc")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
