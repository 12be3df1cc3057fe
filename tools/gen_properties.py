"""Writes /verif/properties.jsonl (kept so the list is edited in one readable place)."""
import json, os, sys
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": False}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


S = "skwdro/solvers/"
DI = S + "_dual_interfaces/"
B = "skwdro/base/"
LM = "skwdro/linear_models/"
OR = "skwdro/operations_research/"

prop("C01", "Robust value equals the entropic Wasserstein dual formula",
     "For a positive radius rho and importance sampling off, evaluating a robust model on a batch returns lambda*rho^p plus the mean over data points of epsilon*log of the average over that point's reference samples of exp((loss(zeta) - lambda*cost(xi,zeta))/epsilon), where p is the power of the ground cost. The sum and none reductions replace that mean by the sum or the vector of the per-point terms. The value uses exactly the requested number of reference samples per data point, is finite whenever the formula is, and has the dtype of the data.",
     ["inputs", "configurations"],
     "all batches, losses (built-in or user-supplied, with or without labels), cost codes, lambda >= 0, rho > 0, epsilon > 0, sample counts, reductions, pre- or post-sampled models, float32 and float64, including very small epsilon and very large losses",
     "The tests only check output shapes and a handful of training outcomes; no test compares the robust objective with the formula, none uses the sum or none reduction, and none leaves the well-scaled regime.",
     [DI + "dual_loss.py", DI + "_misc_dual_interfaces.py", S + "oracle_torch.py", "skwdro/wrap_problem.py"],
     [("dual value", DI + "dual_loss.py"), ("reduction", DI + "_misc_dual_interfaces.py"), ("forward passes", S + "oracle_torch.py")],
     ["return value of the robust model", "the points handed to the user's loss", "the robust model's lambda, rho, epsilon"])

prop("C02", "Importance sampling only changes the proposal, not the estimand",
     "With importance sampling on, every reference sample of a data point is translated by one common finite displacement, and the robust value is the same dual formula in which each translated sample is weighted by the ratio of the reference density at that sample to the density of the translated reference law at that sample. If a displacement is not finite, the untranslated samples are used with weight one. This holds with and without labels.",
     ["inputs", "configurations"],
     "all batches, differentiable losses with or without labels, squared-Euclidean costs, lambda > 0, epsilon, sigma, sample counts and seeds, including points with zero loss gradient",
     "Tests never look at the weights; a wrong or missing density correction still trains to separable data and passes.",
     [DI + "_impsamp_interface.py", DI + "dual_loss.py", B + "samplers/torch/base_samplers.py", B + "costs_torch/normcost.py", B + "costs_torch/normlabelcost.py"],
     [("sample displacement", DI + "_impsamp_interface.py"), ("log density of the recentred law", B + "samplers/torch/base_samplers.py")],
     ["points handed to the user's loss with importance sampling on and off under the same seed", "return value of the robust model"])

prop("C03", "Radius zero is empirical risk; negative radius is refused",
     "A robust model built with radius zero evaluates to the reduced ordinary loss on the batch, with the ordinary loss's parameter gradients, whatever the samples, epsilon, lambda or sampling scheme. A negative radius is refused with an error, both when evaluating a robust model and when constructing an estimator.",
     ["inputs", "configurations"],
     "all batches, losses, costs, reductions, pre- and post-sampled models with or without stored samples, and all five estimators",
     "One guard test checks a negative radius on single estimators; the zero-radius path is exercised only through training on separable data, where a wrong objective still succeeds.",
     [DI + "dual_loss.py", S + "oracle_torch.py", "skwdro/linear_models/_logistic_regression.py", "skwdro/operations_research/_newsvendor.py"],
     [("zero radius branch", S + "oracle_torch.py"), ("radius validation", "skwdro/linear_models/_linear_regression.py")],
     ["return value and gradients of the robust model", "exceptions"])

prop("C04", "Gradients of the robust value are the exact adversarial expectations",
     "Backpropagating through the robust value gives, for lambda, rho^p minus the adversarially weighted mean cost, and, for every model parameter, the adversarially weighted mean of the loss gradient, where the weights of each data point's samples are the normalised exponentials of the dual formula. Parameters frozen by the user receive no gradient.",
     ["inputs", "configurations"],
     "all batches, losses, costs, reductions to a scalar, lambda, rho, epsilon, and pre- or post-sampled models without importance sampling",
     "Tests check that training reaches separable solutions; a detached term or mis-scaled gradient direction still descends.",
     [DI + "dual_loss.py", S + "oracle_torch.py", B + "losses_torch/wrapper.py"],
     [("autograd through the dual value", DI + "dual_loss.py")],
     ["gradients of the robust model's parameters after backward"])

prop("C05", "Evaluating a robust model leaves the user's objects untouched",
     "Evaluating a robust model, with or without importance sampling or the initial dual guess, does not change the data it is given, parameter values, buffers, which parameters require gradients, or the training/evaluation mode of any submodule. Switching a robust model to training mode puts all submodules in training mode and keeps the objective robust.",
     ["inputs", "configurations", "histories"],
     "all batches, losses and costs, networks with dropout or batch normalisation, any subset of frozen parameters, any mix of submodule modes, any sequence of evaluations and mode switches",
     "No test inspects modes, flags or inputs after an evaluation, and the networks used in tests have neither frozen parameters nor mode-dependent layers.",
     [DI + "_impsamp_interface.py", DI + "_misc_dual_interfaces.py", DI + "dual_loss.py"],
     [("functional gradients", DI + "_impsamp_interface.py"), ("freeze/unfreeze and mode switches", DI + "_misc_dual_interfaces.py")],
     ["snapshots of inputs, parameters, buffers, requires_grad and training flags around each call"])

prop("C06", "Samples are redrawn around the current batch, or kept, as configured",
     "A post-sampled robust model draws the configured number of samples around the batch it is currently given, so successive batches of different contents and sizes are each compared with samples centred on themselves; with a fixed seed, re-evaluating the same batch repeats the same value. A pre-sampled model uses exactly the samples it was last given until it is given others, and refuses to evaluate when it was never given any.",
     ["histories", "inputs", "configurations"],
     "all sequences of batches of varying sizes, costs, labelled or not, seeds, and mixtures of supplied and omitted samples",
     "Tests evaluate single full batches; a sampler that keeps an old mean or old samples would only be visible on batch sequences.",
     [S + "oracle_torch.py", B + "samplers/torch/cost_samplers.py", B + "samplers/torch/base_samplers.py"],
     [("sampler reset", S + "oracle_torch.py"), ("stored samples", S + "oracle_torch.py")],
     ["points handed to the user's loss at each evaluation", "return values"])

prop("C07", "Ground costs return the documented power of a weighted norm",
     "The cost between (x,y) and (x',y') is the configured power of the configured norm of x-x', or, for label-aware costs, the power of (data norm + kappa * label norm)/(1+kappa) with the documented limits for kappa zero and infinite. It is non-negative, symmetric, zero at equality, its power-th root obeys the triangle inequality, and it broadcasts over sample and batch axes independently. Negative kappa is refused.",
     ["inputs", "configurations"],
     "all pairs of points and labels, dimensions, norms 1, 2 and infinity and other orders, powers, kappas, dtypes and broadcast shapes",
     "The cost tests use a few hand-computed points and the default kappa.",
     [B + "costs_torch/normcost.py", B + "costs_torch/normlabelcost.py", B + "costs_torch/base_cost.py"],
     [("cost value", B + "costs_torch/normcost.py"), ("label-aware cost", B + "costs_torch/normlabelcost.py")],
     ["return value of the cost"])

prop("C08", "A cost code means the same cost on every route",
     "A cost code decodes to the same kind of cost, norm, power and label weight whether it is decoded directly, parsed in two steps, or given to a robust model or estimator, and omitting it means the squared Euclidean cost (label-aware when labels are present). Codes with an unknown kind, an unknown engine, or malformed numbers are refused on every route that accepts codes of that shape.",
     ["inputs", "configurations"],
     "all well-formed codes with three, four or five fields in each route that accepts them, and malformed mutations of them",
     "The grammar tests compare the routes on a fixed list of default-kappa codes and never check that an estimator really uses the decoded cost.",
     [B + "cost_decoder.py", "skwdro/wrap_problem.py"],
     [("direct decoder", B + "cost_decoder.py"), ("two-step parser", B + "cost_decoder.py")],
     ["decoded cost objects and their values on points", "cost used while fitting an estimator", "exceptions"])

prop("C09", "Reference samples follow the law the cost prescribes",
     "Samples drawn for a batch have one independent draw per requested sample and data point, centred on the data point, of the family the cost prescribes (Laplace for the 1-norm with power one, Gaussian for the 2-norm and sup-norm) with the configured scale; labels are left exact or drawn with the prescribed label scale. Recentring a sampler moves the centre only, and equal seeds give equal draws.",
     ["inputs", "configurations", "histories"],
     "all batches and labels, costs, scales, covariances, seeds, sample counts, built-in samplers and recentring sequences",
     "Sampler tests check shapes and one mean with a loose tolerance; family, scale, independence and label law are unchecked.",
     [B + "samplers/torch/base_samplers.py", B + "samplers/torch/cost_samplers.py", B + "samplers/torch/classif_sampler.py", B + "samplers/torch/newsvendor_sampler.py", B + "samplers/torch/portfolio_sampler.py", B + "costs_torch/normcost.py", B + "costs_torch/normlabelcost.py"],
     [("sampler construction from cost", B + "samplers/torch/cost_samplers.py"), ("recentring", B + "samplers/torch/classif_sampler.py")],
     ["drawn samples"])

prop("C10", "Reported sampler log-densities are those of the sampling law",
     "For every sampler the reported log-density of a point equals the log-density of the law its samples follow, summed over coordinates and over data and labels; the recentred log-density equals the same law translated to the given centre. Both return one number per sample and data point.",
     ["inputs", "configurations"],
     "all samplers, batches, query points, centres, scales, full covariances and labels",
     "No test evaluates a log-density of a sampler.",
     [B + "samplers/torch/base_samplers.py", B + "samplers/torch/classif_sampler.py", "skwdro/distributions/dirac_distribution.py"],
     [("log-density", B + "samplers/torch/base_samplers.py")],
     ["returned log-densities"])

prop("C11", "The point-mass distribution behaves as a point mass",
     "A point-mass distribution returns its location for every draw, mean and mode, zero variance, joint log-density zero for a query made of copies of its location and minus infinity for any other query, and expanding it to a compatible batch shape only repeats the location. Requested sample shapes are prepended to batch and event shapes.",
     ["inputs", "configurations"],
     "all locations, batch ranks, sample shapes and expansions",
     "Tests cover a fixed list of shapes and never query the density away from the location in batches.",
     ["skwdro/distributions/dirac_distribution.py"],
     [("point mass", "skwdro/distributions/dirac_distribution.py")],
     ["draws, moments, densities and shapes"])

prop("C12", "Built-in losses return their documented per-point values",
     "The logistic, squared-error, newsvendor, portfolio and Weber losses return one value per data point equal to the documented formula at that point, plus half the L2 weight times the squared parameter norm when regularisation is set. Extreme but finite margins give finite values.",
     ["inputs", "configurations"],
     "all batches (with or without a leading sample axis), parameters, intercept settings, L2 weights and problem constants",
     "Tests check shapes and a few points; regularisation and extreme margins are not compared with a formula.",
     [B + "losses_torch/logistic.py", B + "losses_torch/quadratic.py", B + "losses_torch/newsvendor.py", B + "losses_torch/portfolio.py", B + "losses_torch/weber.py", B + "losses_torch/base_loss.py", "skwdro/operations_research/_newsvendor.py"],
     [("loss values", B + "losses_torch/logistic.py"), ("regularisation", B + "losses_torch/base_loss.py")],
     ["values returned by the losses"])

prop("C13", "Wrapping a user loss preserves its per-point values",
     "The primal loss of a robust model returns, for points arranged along sample and batch axes, the user's loss of the user's transformed point for every point separately, averaged over output coordinates unless the loss already reduces them, plus the L2 term; a plain batch without sample axis averages to the same number. Permuting, splitting or repeating points permutes, splits or repeats the values; losses with a reduction are refused.",
     ["inputs", "configurations"],
     "all module and functional losses, transforms, labelled or not, output dimensions, one or several sample axes, L2 weights",
     "Format tests check output shapes for a few losses; values per point are never compared across layouts.",
     [B + "losses_torch/wrapper.py", B + "losses_torch/base_loss.py"],
     [("flattening and unflattening of sample axes", B + "losses_torch/wrapper.py")],
     ["values returned by the primal loss"])

prop("C14", "The dual variable stays non-negative and results stay coherent",
     "While any of the library's training routines, or a user's own loop stepping the model's adaptive optimizer, runs, every evaluation of the robust objective after the starting guess sees a finite, non-negative dual variable, and the dual variable in the result is non-negative and zero when the radius is zero. A run that stays finite returns finite parameters.",
     ["inputs", "configurations", "histories"],
     "all estimators and robust models trained by the library's solver, with every sampling scheme, optimiser choice, learning rate, radius and data set in the sampled workload",
     "Tests never observe the dual variable during or after training.",
     [S + "entropic_dual_torch.py", S + "oracle_torch.py"],
     [("training loops", S + "entropic_dual_torch.py"), ("projection of lambda", S + "oracle_torch.py")],
     ["lambda at every evaluation of the robust objective", "fitted dual variable"],
     [("lambda", "dual variable of the transport constraint", S + "oracle_torch.py")])

prop("C15", "Training runs the configured schedule and reports its final state",
     "The solver performs the configured numbers of warm-up and robust optimisation steps unless the stopping rule or a non-finite objective ends it earlier, every step using a gradient evaluated at the current parameters on the full data given, labels encoded for classifiers, and the model's configuration is what it was before. A pre-sampled run uses one fixed set of samples throughout, a post-sampled run draws around the data at each step (anew each time when no seed is set). The reported robust loss is the last objective value computed and the reported coefficients are the final parameters.",
     ["histories", "configurations", "inputs"],
     "all step schedules (integers or pairs), sampling schemes, optimisers, stopping rules and data in the sampled workload, including objectives made non-finite at a chosen step",
     "Tests check only end results of training; the order and number of steps, which samples are used and what is reported are unobserved.",
     [S + "entropic_dual_torch.py", S + "utils.py", "skwdro/linear_models/_linear_regression.py", "skwdro/linear_models/_logistic_regression.py"],
     [("training loops", S + "entropic_dual_torch.py"), ("step schedule", S + "utils.py")],
     ["event log of objective evaluations, samples and optimiser steps", "solver result"])

prop("C16", "The stopping rule fires exactly when its criterion is met",
     "The stopping rule says stop at an iteration if and only if the iteration budget is spent or the monitored quantity (gradient norm, or change of the parameters since the previous iteration, of the model, the dual variable, both or either) is below the tolerance, in absolute value or relative to its first observation in this run; a non-positive tolerance disables a criterion. Unknown settings are refused.",
     ["histories", "configurations", "inputs"],
     "all sequences of parameters and gradients and all combinations of monitored variable, metric, mode, norm order and tolerances",
     "Tests try a few monotone sequences, and none observes the parameter metric of the dual variable over several iterations or reuse across runs.",
     [S + "optim_cond.py"],
     [("stopping rule", S + "optim_cond.py")],
     ["boolean decisions along a trace"],
     [("memory", "first and previous observations", S + "optim_cond.py")])

prop("C17", "Fits are reproducible and independent of earlier work",
     "Fitting an estimator gives the same parameters for the same data, options and random state, regardless of the global random state, of estimators fitted before in the same process, or of how often this estimator was fitted before.",
     ["histories", "configurations", "inputs"],
     "all estimators and solvers, random states, and interleavings of fits on different data sets",
     "Each test file runs in a fresh process in a fixed order precisely because earlier fits leak into later ones; no test compares fits across histories.",
     ["skwdro/linear_models/_logistic_regression.py", "skwdro/linear_models/_linear_regression.py", "skwdro/operations_research/_newsvendor.py", "skwdro/operations_research/_portfolio.py", "skwdro/operations_research/_weber.py", S + "optim_cond.py", S + "entropic_dual_torch.py"],
     [("shared stopping rule", S + "optim_cond.py"), ("seeding", B + "samplers/torch/base_samplers.py")],
     ["fitted attributes after different histories"])

prop("C18", "Fitting and predicting do not alter data or options",
     "Fitting, predicting, evaluating and scoring leave the caller's arrays and the estimator's option values unchanged, fitting returns the estimator, and a cloned or unpickled estimator has equal options and, when fitted, equal predictions.",
     ["inputs", "histories", "configurations"],
     "all estimators, solvers, array layouts (C/Fortran order, float32/float64/integers, read-only, lists), options and call sequences",
     "The generic estimator tests run on one configuration per class and do not cover the operations-research estimators' evaluation or integer and read-only data.",
     ["skwdro/linear_models/_logistic_regression.py", "skwdro/linear_models/_linear_regression.py", "skwdro/operations_research/_newsvendor.py", "skwdro/operations_research/_portfolio.py", "skwdro/operations_research/_weber.py", B + "problems.py"],
     [("fit", "skwdro/linear_models/_logistic_regression.py"), ("empirical distributions", B + "problems.py")],
     ["snapshots of arrays and options around each call", "predictions of copies"])

prop("C19", "Dedicated logistic solver returns the robust logistic optimum",
     "The dedicated logistic solver's coefficients, intercept and dual variable minimise radius times dual variable plus the average worst of the two label-branch losses under the norm constraint, and the reported value is that minimum. Without intercept the intercept is zero, and the optimal value never decreases with the radius.",
     ["inputs", "configurations"],
     "all binary data sets in the sampled family, radii and intercept settings",
     "One test fits separable blobs and checks accuracy only.",
     [S + "specific_solvers.py", "skwdro/linear_models/_logistic_regression.py"],
     [("convex programme", S + "specific_solvers.py")],
     ["solver result compared with an independently certified optimum"])

prop("C20", "Dedicated regression solver returns the robust regression optimum",
     "The dedicated regression solver minimises root-mean-square error plus radius times the Euclidean norm of the coefficients, over coefficients and (if requested) an unpenalised intercept, which is zero otherwise. The optimal value never decreases with the radius and coefficients vanish for a large enough radius.",
     ["inputs", "configurations"],
     "all regression data sets in the sampled family, radii and intercept settings",
     "No test compares the dedicated regression fit with an optimum.",
     [S + "specific_solvers.py", "skwdro/linear_models/_linear_regression.py"],
     [("convex programme", S + "specific_solvers.py")],
     ["fitted coefficients"])

prop("C21", "Dedicated portfolio solver returns the robust mean-risk optimum",
     "The dedicated portfolio solver returns weights on the probability simplex, a risk threshold and a dual variable that minimise the worst-case mean-risk objective over the transport ball whose ground norm is the cost's norm, and the reported value is that optimum. The value never decreases with the radius, and support constraints, when given, never increase it.",
     ["inputs", "configurations"],
     "all return samples in the sampled family, radii, risk aversions, confidence levels, ground norms and polyhedral supports",
     "The only portfolio tests check that the estimator runs.",
     [S + "specific_solvers.py", "skwdro/operations_research/_portfolio.py"],
     [("convex programme", S + "specific_solvers.py"), ("dual norm", S + "specific_solvers.py")],
     ["solver result compared with an independent optimum"])

prop("C22", "Dedicated newsvendor solver returns the robust newsvendor optimum",
     "The dedicated newsvendor order quantity minimises the worst-case expected cost over all non-negative demand laws within transport distance rho of the sample, and equals the sample-average optimum when the radius is zero. The worst-case cost at the returned order never decreases with the radius.",
     ["inputs", "configurations"],
     "all non-negative demand samples in the sampled family, unit cost and price, and radii from zero to beyond the mean demand",
     "No test computes a worst case; large radii and single samples are never tried.",
     [S + "specific_solvers.py", "skwdro/operations_research/_newsvendor.py"],
     [("closed-form rule", S + "specific_solvers.py")],
     ["returned order compared with a brute-force worst case"])

prop("C23", "Robust classifier predictions are consistent",
     "A fitted robust classifier returns, for n points and K classes, an n-by-K matrix of probabilities whose rows are non-negative and sum to one and agree with the fitted coefficients and intercept, and it predicts, as an n-vector of the original label values, the class of largest probability. Consistently renaming the labels in an order-preserving way renames the predictions and changes nothing else; without intercept the origin is undecided. Clearly separated training classes are predicted correctly.",
     ["inputs", "configurations"],
     "all binary and multiclass data sets, label types (integers, negative, strings, booleans), feature counts from one, solvers and intercept settings",
     "Tests fit two-feature binary data with default options and only look at accuracy.",
     ["skwdro/linear_models/_logistic_regression.py"],
     [("prediction", "skwdro/linear_models/_logistic_regression.py")],
     ["coefficients, probabilities and predictions"])

prop("C24", "Robust regressor predictions are affine in the fitted coefficients",
     "A fitted robust regressor predicts the intercept plus the inner product with its coefficients for each point separately, with one coefficient per feature, and an intercept of zero whenever no intercept was requested, for every solver. Noiseless linear data are recovered at a tiny radius.",
     ["inputs", "configurations"],
     "all regression data sets, feature counts from one, solvers and intercept settings",
     "Tests use default options only and check that predictions run.",
     ["skwdro/linear_models/_linear_regression.py"],
     [("prediction", "skwdro/linear_models/_linear_regression.py")],
     ["coefficients and predictions"])

prop("C25", "Decision estimators return feasible decisions and honest scores",
     "After fitting, portfolio weights are non-negative and sum to one, Weber locations and newsvendor orders have the problem's dimension and are finite, and evaluating on new data returns, as a finite plain number, the average problem loss of the fitted decision on that data, with the score its negation. This holds for every accepted solver name and float type.",
     ["inputs", "configurations"],
     "all decision estimators, solver names, radii, risk parameters and evaluation data",
     "Tests only call fit.",
     ["skwdro/operations_research/_portfolio.py", "skwdro/operations_research/_newsvendor.py", "skwdro/operations_research/_weber.py"],
     [("evaluation", "skwdro/operations_research/_portfolio.py")],
     ["fitted decisions, eval and score values"])

prop("C26", "Hybrid optimisers respect each group's geometry",
     "A hybrid optimiser step equals the underlying optimiser's step for plain groups, ascends instead of descends for maximised groups, keeps multiplicative groups positive by stepping in log space and simplex groups normalised, keeps non-negative groups non-negative, and clips gradients to the bound for bounded groups. Groups do not influence one another.",
     ["inputs", "configurations", "histories"],
     "all mixtures of groups, both underlying optimisers, learning rates, and gradient sequences including huge ones",
     "Tests train one problem per rule to convergence.",
     [S + "hybrid_opt.py"],
     [("pre/post rules", S + "hybrid_opt.py")],
     ["parameters after every step compared with a reference optimiser"])

prop("C27", "Solver results map positions to names consistently",
     "A solver wrapped by the library returns a result whose named fields and whose unpacking order correspond to the legacy return: two entries are coefficients and dual variable, three insert the intercept, four append the robust loss, mappings keep their names, and results pass through unchanged. Other returns are refused, and results of different calls share no state.",
     ["inputs", "programs"],
     "all legacy return shapes and values, mappings with extra names, and nested wrapping",
     "No test exercises the result wrapper directly.",
     [S + "result.py"],
     [("result wrapper", S + "result.py")],
     ["fields and iteration of results"])

prop("C28", "Options given to robust models and estimators take effect as documented",
     "The radius, sample count, epsilon, sigma, seed, reduction, step schedule, L2 weight, cost and importance-sampling choice given to a robust model or estimator are the ones its objective uses; omitted epsilon and sigma take the documented radius-dependent defaults, and importance sampling is used only for squared-Euclidean costs. The solver name selects pre- or post-sampling as named.",
     ["configurations"],
     "all combinations of options for the robust-model builder and all estimators",
     "Tests use default options; an ignored option would not change any checked outcome.",
     ["skwdro/wrap_problem.py", "skwdro/linear_models/_logistic_regression.py", "skwdro/linear_models/_linear_regression.py", "skwdro/operations_research/_newsvendor.py", "skwdro/operations_research/_portfolio.py", "skwdro/operations_research/_weber.py"],
     [("builder", "skwdro/wrap_problem.py")],
     ["attributes and sampled points of the robust objective while fitting"])

prop("C29", "The starting dual guess follows the loss sensitivity and the radius",
     "The starting guess for the dual variable is finite and non-negative, depends only on the cost-size of the loss gradients at the data, the batch size and the radius through the documented expression, is zero at radius zero, and is what the dual variable holds afterwards. For squared costs it scales linearly with the loss.",
     ["inputs", "configurations"],
     "all batches, differentiable losses, costs, radii and labelled or unlabelled data",
     "The guess is only exercised inside full training runs.",
     [DI + "dual_loss.py", DI + "_impsamp_interface.py"],
     [("initial guess", DI + "dual_loss.py")],
     ["returned guess and lambda afterwards"])

prop("C30", "Copies of robust models behave like the original",
     "A deep copy or pickle round trip of a robust model (and of a fitted estimator holding one) evaluates to the same values and gradients as the original, and training a copy of a model that samples at each step makes the same progress and leaves the original unchanged. Its saved parameter state loaded into an identically built model reproduces the values.",
     ["inputs", "configurations", "histories"],
     "all robust models (pre/post-sampled, every optimiser), losses and numbers of steps taken before copying",
     "Generic estimator pickling tests cover unfitted or default estimators only.",
     [S + "oracle_torch.py", DI + "_misc_dual_interfaces.py"],
     [("optimiser state", S + "oracle_torch.py")],
     ["values and gradients of copies"])

prop("C31", "Training with a fixed step approaches the minimum of the robust objective",
     "Training a well-scaled convex robust model, or fitting an estimator, with a fixed learning rate and enough steps ends no higher than it started and, in the median of three runs, close to the best value an independent optimiser finds for the same objective over the model parameters and a non-negative dual variable.",
     ["inputs", "configurations"],
     "well-scaled convex losses, all five estimators, radii of 0.3 and 0.6, epsilons of 0.3 and 1, costs without importance sampling and seeds in the sampled workload",
     "Tests check accuracy on separable data, which a wrong objective also attains.",
     [S + "entropic_dual_torch.py", S + "oracle_torch.py"],
     [("training loops", S + "entropic_dual_torch.py")],
     ["objective at the trained point and at an independently found optimum"])

prop("C32", "Radius tuning returns a model fitted at a radius it examined",
     "Radius tuners return a fitted estimator of the wrapped kind whose radius is non-negative and is one of the grid's powers of ten (grid tuner) or the square root of the 95% quantile of the conjugate samples over the sample size (portfolio tuner), fitted on the full data at that radius. A missing estimator is refused.",
     ["inputs", "configurations"],
     "data sets, wrapped estimators and grid bounds in the sampled workload",
     "Nothing tests the tuners.",
     [B + "rho_tuners.py", B + "rho_tuners_computations.py"],
     [("grid tuner", B + "rho_tuners.py"), ("statistical tuner", B + "rho_tuners_computations.py")],
     ["best estimator, its radius and predictions"])

prop("C33", "Importance sampling moves samples along the loss gradient at the data",
     "With importance sampling every sample of a data point is moved by the gradient of the loss at that point, clipped to the threshold norm, over twice the dual variable; labels move by their own gradient over twice the dual variable times the label weight for label-aware costs and stay put for plain ones. When any displacement is not finite, no sample moves at all.",
     ["inputs", "configurations"],
     "all differentiable losses, batches, squared Euclidean costs, label weights, dual variables including zero, and thresholds",
     "Tests only check that importance-sampled fits run.",
     [DI + "_impsamp_interface.py", S + "utils.py", B + "costs_torch/normcost.py", B + "costs_torch/normlabelcost.py"],
     [("displacement", DI + "_impsamp_interface.py")],
     ["points at which the user's loss is evaluated with and without importance sampling"])

prop("C34", "Invalid data, options and uses of estimators are refused",
     "Fitting refuses with an error data that are missing, not finite, not two-dimensional, empty or not numbers, labels that are missing, not finite or of another number, a single class, unknown solvers, unknown costs (entropic solvers), a negative or non-numeric radius, and portfolio options out of their documented ranges; predicting, evaluating and scoring refuse unfitted estimators and points that are not finite, not two-dimensional or empty, and (classifier, regressor, portfolio) of another dimension. A refusal leaves the data and options as they were and an unfitted estimator unfitted.",
     ["inputs", "configurations"],
     "all estimators and solvers, each kind of invalid input, data sets in the sampled workload",
     "Generic estimator tests spoil the data of default estimators only, never options or fitted decisions.",
     [LM + "_logistic_regression.py", LM + "_linear_regression.py", OR + "_newsvendor.py", OR + "_portfolio.py", OR + "_weber.py"],
     [("estimators", LM + "_logistic_regression.py")],
     ["exceptions of spoiled calls and the state they leave"])

prop("C35", "The container and memory layout of the data do not matter",
     "Handing the same numbers to an estimator as lists, tuples, data frames, array-likes, read-only arrays, views with other strides or orders, or other numeric types gives the objective the same data and the same fitted parameters and answers as a plain contiguous array of doubles, up to rounding where the memory order changes.",
     ["inputs", "configurations"],
     "all estimators and solvers, containers and types, data exactly representable in each type, in the sampled workload",
     "Tests fit plain arrays; generic estimator tests try a few containers with default options.",
     [LM + "_logistic_regression.py", LM + "_linear_regression.py", OR + "_newsvendor.py", OR + "_portfolio.py", OR + "_weber.py", B + "problems.py"],
     [("estimators", LM + "_logistic_regression.py")],
     ["data received by the objective, fitted parameters, answers"])

prop("C36", "Robust models assembled by hand obey the dual formula and their handles",
     "A robust model assembled from any loss, ground cost and sampler of the library or of the user evaluates to the dual formula on the samples its sampler returns, recentred at the batch unless told otherwise, with exact gradients for the parameters, the dual variable and, when hypertuning is asked, the radius and the regularisation. Samples on demand, freezing, the parameter and optimizer handles and replacing the sampler or settings do exactly what they document. A sampler built by the model or suggested by its loss follows the cost or is a Gaussian of the given scale around the data, with the given seed.",
     ["inputs", "configurations", "histories"],
     "all losses, norm orders and powers, reductions, sampling schemes, custom samplers, sequences of evaluations, resets and changes of settings in the sampled workload",
     "Tests assemble a few models and look at shapes; none compares values or gradients with the formula, uses the hypertuning gradients or keeps the centre of a sampler.",
     [DI + "dual_loss.py", DI + "_misc_dual_interfaces.py", S + "oracle_torch.py", B + "losses_torch/base_loss.py", B + "losses_torch/logistic.py", B + "losses_torch/quadratic.py", B + "losses_torch/newsvendor.py", B + "samplers/torch/base_samplers.py"],
     [("dual value", DI + "dual_loss.py"), ("handles", DI + "_misc_dual_interfaces.py")],
     ["calls received by a user-written sampler", "value and gradients of the model", "handles of the model"])

prop("C37", "Tensor helpers, step counts and empirical distributions are exact",
     "The exported tensor helpers return exactly the documented flat copy, differentiable copy, added axis, clipped and scaled vectors or flat gradient, pass absent tensors through and leave their arguments untouched. A number of steps is split into warm-up and total by the given share and a pair is kept. Empirical distributions hold the given points, refuse what is not an array and the accessors of the other kind, and turn into single-precision tensors of the same values.",
     ["inputs"],
     "all tensors of rank zero to three, both float types, views, gradient states, axes, thresholds, scalings, step counts and data in the sampled workload",
     "Tests exercise the helpers only through training runs that succeed with wrong scalings, axes or shared memory.",
     [S + "utils.py", B + "problems.py", S + "entropic_dual_torch.py"],
     [("helpers", S + "utils.py"), ("distributions", B + "problems.py")],
     ["return values and arguments of the helpers"])

prop("C38", "Model selection tools and pipelines drive the estimators faithfully",
     "Cross-validation, grid search, pipelines, one-against-the-rest and voting tools of scikit-learn give on every estimator and solver the scores, choices, parameters and predictions of a hand-written loop over newly constructed estimators. Options set after construction, even after a fit, act like options given at construction. Unknown options are refused.",
     ["inputs", "configurations", "histories"],
     "all estimators and solvers, fold counts, radii, options and data sets in the sampled workload",
     "Generic estimator tests check cloning and parameter names on default options; none compares the outcome of a tool with separate fits.",
     [LM + "_logistic_regression.py", LM + "_linear_regression.py", OR + "_newsvendor.py", OR + "_portfolio.py", OR + "_weber.py"],
     [("estimators", LM + "_logistic_regression.py")],
     ["scores, parameters and predictions of the tools and of separate fits"])

prop("C39", "Built-in optimisers step like the published ones they name",
     "Stepping the optimiser a robust model is built with advances its parameters and dual variable exactly as the named published optimiser does: AdamW with AMSGrad at the given or default rate, one-iteration L-BFGS for pre-sampled models, and for the adaptive choices one Prodigy or Mechanic optimiser for the parameters and another for the dual variable, Prodigy being cosine-annealed over the configured schedule. The dual variable stays still at radius zero, clearing the gradients clears them all, and unknown adaptive optimisers are refused.",
     ["inputs", "configurations", "histories"],
     "all losses, schedules, rates, radii, gradient sequences and numbers of steps in the sampled workload, beyond the end of the schedule included",
     "Tests look at the outcome of long fits, which other rates, missing annealing or a shared state still reach.",
     [S + "oracle_torch.py", DI + "_misc_dual_interfaces.py", "skwdro/wrap_problem.py"],
     [("composite optimiser", S + "oracle_torch.py")],
     ["parameters and dual variable of the model after every step"])

prop("C40", "The warm-up of training follows the empirical risk",
     "During the warm-up steps of a training run, pre-sampled or resampling, the registered optimiser works on the average loss over the data alone: the model parameters follow the path the same optimiser takes on that average, whatever the radius and the dual variable. The robust steps start from the parameters reached there, which for an ordinary default regression are those of least squares.",
     ["inputs", "configurations", "histories"],
     "all losses, optimisers, rates, radii, costs, schedules and data in the sampled workload",
     "Tests judge separable or easy data after the robust steps, which hide where the warm-up ended.",
     [S + "entropic_dual_torch.py", DI + "dual_loss.py"],
     [("warm-up loop", S + "entropic_dual_torch.py"), ("empirical risk mode", DI + "dual_loss.py")],
     ["parameters at every warm-up evaluation and at the first robust one"])
prop("C41", "Default fits at a small radius stay close to the empirical optimum",
     "Fitting an estimator with its default options and a small radius on ordinary, well-scaled data gives, for two seeds out of three at least, a finite model whose empirical loss is close to the optimal one: within 5 % for regressions and classifiers, 2 % for locations, 15 % for orders and 20 % for portfolios of what doing nothing would lose. This holds for the dedicated and the resampling solvers; the pre-sampled ones are left out.",
     ["inputs", "configurations"],
     "all five estimators, their dedicated and resampling solvers, radii of 0.003 to 0.03, up to 300 points in 2 to 4 dimensions and seeds in the sampled workload",
     "Tests fit a few fixed data sets that a poorly trained model already answers well.",
     [S + "entropic_dual_torch.py", S + "specific_solvers.py", S + "oracle_torch.py"],
     [("training loops", S + "entropic_dual_torch.py"), ("dedicated programs", S + "specific_solvers.py")],
     ["empirical loss of fitted models"])

with open(OUT, 'w') as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count('. ') <= 2, (p["id"], p["statement"].count('. '))
        f.write(json.dumps(p) + '\n')
print(len(P))
