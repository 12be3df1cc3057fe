P = {
"C01": ("reference model", "Spy modules inside the user's own loss and transform record every point the robust model evaluates; lambda, rho, epsilon, the reduction and the returned number are read from public attributes.",
 "The entropic dual formula in float64 on exactly the recorded points; tolerance is an explicit rounding budget (60 ulp of the largest term).",
 "Mostly batches up to 8 points, 24 samples, 5 features; 18 user losses, all cost codes with a sampler, three reductions, both dtypes, epsilon down to 1e-6 of the losses.",
 "Tests never recompute a robust value; a wrong sign, a missing log(n) or a wrong reduction passes them all."),
"C02": ("reference model", "The same model with importance sampling on and off under one seed; recorded evaluation points and values.",
 "Value recomputed from displaced points and the ratio of reference densities; a zero or non-finite displacement must give the plain value.",
 "Squared Euclidean costs, up to 8 points and 12 samples.", "Needs the weights to be exact: tests only see that a fit ends."),
"C03": ("reference model", "Robust models at radius zero with fresh, given and stored samples; values and gradients. Negative radii on models and estimators.",
 "The ordinary loss and its float64 gradient; refusal (any exception) for negative radii.", "Any lambda, reduction, cost; radii down to -1e13 and up to -1e-13.", "Radius zero is a separate code path per sampling mode, none compared with the plain loss in tests."),
"C04": ("reference model", "Gradients left on lambda and parameters after backward.", "Autograd through the float64 reference formula on the recorded points.", "Random frozen subsets, all 14 losses.", "A detached weight or stale graph changes gradients, not values."),
"C05": ("state sanitizer", "Bit-exact snapshots of data, parameters, buffers, requires_grad flags and train/eval modes around each operation of a random history.", "Nothing may change but what the operation is documented to change.", "Histories of up to 8 operations, networks with dropout and batch normalisation.", "Side effects on user objects show only with frozen parameters or mixed modes."),
"C06": ("trace", "Recorded sample positions for histories of batches placed 1000 apart.", "Each sample must belong to the batch just given, in the right number; pre-sampled models reuse what was given last.", "Up to 9 evaluations per history.", "Tests use one batch only."),
"C07": ("reference model", "Values of costs called directly, also with float32 and broadcast shapes.", "Float64 weighted-norm reference, symmetry, identity and triangle inequality on observed values.", "Norms 1 to inf, powers .5 to 4, kappa 0 to inf, scales 1e-6 to 1e6.", "Tests use a handful of hand-picked points."),
"C08": ("reference model", "The cost decoded on every route (decoder, parser, builder, estimators) evaluated at random points.", "The documented grammar; malformed codes must be refused.", "Full grid of kinds, powers, norms and kappas; random mutations of codes.", "Routes may disagree, tests look at one."),
"C09": ("statistical", "Several thousand draws per case, standardised by the configured scale.", "Kolmogorov-Smirnov, moments, cross-correlations at p < 1e-9; seeds compared exactly.", "All cost samplers and built-in covariance samplers, before and after recentring.", "Tests check shapes."),
"C10": ("reference model", "log_prob and recentred log_prob of every sampler.", "scipy densities (stable formulas of our own where scipy underflows).", "Queries up to 30 scales away.", "Densities enter the importance weights only, tests never read them."),
"C11": ("reference model", "Draws, moments, densities and shapes of the point mass.", "The location itself.", "Up to 3 batch and 3 sample axes, expansions.", "Tests cover one shape."),
"C12": ("reference model", "Per-point values of the five built-in losses.", "Documented formulas in float64 numpy.", "Zero to two leading axes, extreme scales, both dtypes.", "Tests only check that fits run."),
"C13": ("reference model", "Values of wrapped user losses for points laid out along zero to three axes.", "The user's own modules, point by point; permuted, split, repeated layouts.", "Functional and module losses, several outputs, self-reducing losses.", "A transposed or averaged axis only shows with several axes."),
"C14": ("trace", "lambda at every evaluation and the returned result of real fits and of robust models trained by six optimisers.", "lambda >= 0 always; result fields agree with the model.", "Steps from ordinary to very large, radii 0 to 1.", "Negativity appears in the middle of runs."),
"C15": ("trace", "Log of evaluations and optimiser steps of training runs.", "State machine of the schedule: warm-up steps, training steps, early stop, stop at NaN, last loss reported.", "Schedules up to 15 steps, occasionally up to 60, NaN injected at a chosen step.", "Tests never count steps."),
"C16": ("reference model", "The rule's answer at every iteration of scripted parameter walks and real runs.", "A reference machine of the documented criterion.", "All settings of monitoring, metric, order and tolerance; several runs per instance.", "Tests use one setting."),
"C17": ("state sanitizer", "Everything a fit produces, before and after disturbing global state and other fits.", "Bit equality.", "All estimators and solvers, shared stopping rule.", "Needs a history of several fits."),
"C18": ("state sanitizer", "Arrays and options around fit, predict, score; clones, pickles, deep copies.", "No change; copies answer alike.", "C/F order, slices, float32, lists, integer arrays.", "sklearn's checks skip most estimators' options."),
"C19": ("certificate", "The returned logistic solution.", "Independent convex objective and a polishing search that tries to beat it.", "Up to 40 points, 4 features; SCS accuracy limits the feasibility tolerance to 5e-2.", "No test looks at optimality."),
"C20": ("certificate", "The returned regression solution.", "The best point of the ridge path, which contains the optimum (1e-5).", "Wide, collinear and badly scaled data.", "No test compares the returned decision with an optimum."),
"C21": ("certificate", "Weights, threshold, dual variable, value.", "The transport problem itself for the worst case, and an independent programme for a better decision.", "Up to 12 samples, 4 assets, three ground norms, polyhedral supports.", "No test compares the returned decision with an optimum."),
"C22": ("certificate", "The returned order.", "Brute-force worst case scanned over all candidate orders.", "Demands with ties, zeros and heavy tails, radii beyond the mean.", "No test compares the returned decision with an optimum."),
"C23": ("reference model", "Probabilities and predictions of fitted classifiers; a twin fitted on renamed labels.", "Softmax/sigmoid of the public coefficients; equality under renaming; separated data predicted right.", "2 to 4 classes, integer, negative, string and boolean labels.", "Tests use one binary data set."),
"C24": ("reference model", "Predictions of fitted regressors.", "Affine map of the public coefficients; noiseless data recovered (median of 7 entropic fits).", "1 to 4 features, every solver.", "Tests check that predict runs."),
"C25": ("reference model", "Decisions, eval and score on other data.", "Textbook losses of the public decision; simplex feasibility. Fits that diverged (|coef| >= 1e6) are skipped and counted.", "Every solver name.", "Tests only call fit."),
"C26": ("reference model", "All parameters after each step of a hybrid optimiser.", "Float64 reference of plain, maximised, multiplicative, simplex, non-negative and bounded groups over SGD and Adam.", "Up to 8 steps, gradients up to 1e6.", "Tests train one problem to convergence."),
"C27": ("reference model", "Fields and unpacking of wrapped results.", "The legacy return itself.", "Tuples of any length, mappings, nested wrapping, invalid objects.", "No test."),
"C28": ("trace", "The robust objective at its first evaluation (through torch hooks), its first draws, the points its loss sees and the optimiser's groups.", "The options, or the documented defaults when omitted.", "Builder: 15 options given or omitted at random. Estimators: every entropic solver name.", "An ignored option changes no outcome a test looks at."),
"C29": ("reference model", "The returned guess, lambda after it, and lambda at the first evaluation after warm-up in training.", "The documented expression on float64 reference gradients.", "Batches other than the one built on, radii 1e-5 to 5.", "Only runs inside training in tests."),
"C30": ("state sanitizer", "Values, gradients, draws and further steps of copies against the original.", "Equality (1e-6), original bit-unchanged while the copy trains.", "Deep copy, pickle, torch.save, state dict; AdamW, Prodigy, Mechanic; L-BFGS copies are evaluated, not trained (torch cannot step them).", "Generic pickling tests cover default estimators."),
"C31": ("certificate", "Start and end of training runs, and the objective there on one fixed set of draws.", "An independent bounded quasi-Newton search from both points; median over three runs of the share of the gap left.", "Convex losses, fixed learning rate, 430 to 530 steps. Adaptive default fits are not covered: on the unchanged tree they do not reliably converge (see below).", "Accuracy on separable data is blind to a wrong objective."),
"C32": ("trace", "Every fit and score of a scripted estimator; intermediate quantities of the statistical tuner.", "Grid radii and the best score; documented formulas recomputed.", "Random grids of up to 10 powers; up to 20 returns.", "No test."),
"C33": ("trace", "Points handed to the user's loss by twin models with and without importance sampling.", "Reference gradients over 2 lambda (and kappa for labels); none moved when any direction is not finite.", "All differentiable losses, lambda from 0, thresholds .05 to 5.", "The displacement is invisible in the value when the weights compensate it."),
}

P["C34"] = ("state sanitizer", "Calls of fit, predict, eval, score spoiled in exactly one way; whether they end in an exception, and the arrays, options and fitted state around them.", "The list of refusals the property states; the unspoiled call must succeed first, so a refusal of everything is no answer.", "39 ways to spoil a call times every estimator and solver. Not claimed: the cost option of dedicated solvers that do not use it, one-column points given to a fitted Weber (they broadcast).", "Generic tests spoil the data of default estimators only.")
P["C35"] = ("metamorphic", "The tensors that reach the objective (torch hooks) and the fitted parameters and answers.", "Equality with the plain contiguous array of doubles: exact, or up to rounding where the memory order changes the summation.", "15 containers and layouts, fitted and asked, every estimator and solver. Values are exactly representable in every type compared.", "Tests hand over plain arrays.")
P["C36"] = ("reference model", "Models assembled from the exported parts with a user-written sampler that logs what is asked of it; values, all gradients (also of radius and epsilon), handles, freezing, samplers built by the model.", "The dual formula in float64 on the logged samples, autograd through it for the gradients.", "Five kinds of losses, costs of any order and power, sequences of up to 6 operations.", "Tests assemble a few models and look at shapes.")
P["C37"] = ("reference model", "The exported helpers and empirical distributions, called on random ranks, dtypes, layouts and gradient states; their arguments before and after.", "numpy.", "Up to 3 axes of up to 4 entries.", "Only exercised through training runs that succeed anyway.")
P["C38"] = ("metamorphic", "Scores, choices, parameters and predictions of scikit-learn's tools driving the estimators.", "A loop written by hand over newly constructed estimators.", "Up to 4 folds and 3 candidates, every estimator and solver.", "Tests compare no tool with separate fits.")
P["C39"] = ("twin reference", "Parameters and dual variable of two models built alike after every step: one keeps its built-in optimiser, the other is stepped by the published implementation (torch, prodigyopt, mechanic).", "Equality up to rounding (1e-6) of the two trajectories, fed with the same objective gradients or the same random ones.", "Up to 25 steps, also beyond the schedule; rates 1e-3 to .3; trajectories above 1000 are skipped as diverged (L-BFGS amplifies rounding there).", "Tests look at the outcome of long fits only.")
P["C40"] = ("twin reference", "Parameters at every evaluation of the warm-up and at the first robust one, in runs of the solver with every built-in optimiser or a registered SGD or Adam, and in fits of the regression.", "The same published optimiser driven over the user's own modules on the average loss, in single and double precision; where those two part company the comparison stops. Least-squares risk for the regression (within 1 % of the way from the start).", "Up to 12 warm-up steps, radii 0 to 50, up to 150 points; regressions with 25 to 60 or the default number of warm-up steps.", "Tests look at accuracies after the robust steps on easy data.")
P["C41"] = ("certificate", "The models fitted with default options, through their predictions or decisions.", "Empirical optimum from least squares, enumeration of the kinks, Nelder-Mead or a linear program; misclassification of two separated clouds. A miss counts when two of three seeds miss.", "Radii up to 0.03, up to 300 points in 2 to 4 dimensions.", "Tests fit a few fixed easy data sets.")

# later extensions, by property
MORE = {
"C01": "Pre-sampled models are also given sample sets of another size than configured. The losses shipped with the estimators (soft margin, location, portfolio, newsvendor) are among the user losses of C01, C03, C04, C13, C28, C29 and C33, with formulas of our own. Regimes with radii 1e-9 to 1e3, up to 300 points, 400 samples or 70 coordinates.",
"C02": "Epsilons down to 1e-6, radii down to 1e-8, up to 150 points.",
"C04": "Also with given sample sets of another size than configured, and with importance sampling, where the displaced samples and their weights count as constants.",
"C03": "Estimators must refuse a negative radius when constructed, radii down to -1e-26 included.",
"C05": "Gradients the user has accumulated must survive evaluations and guesses.",
"C06": "Post-sampled values are compared with the reference value on the points drawn.",
"C09": "Label weights up to 1e7, samplers given both a scale and a covariance, fractional labels. Label switches of probability 0, 1 % and 99 % are tested exactly, and models of different seeds must draw differently.",
"C12": "Risk levels down to 1e-4, L2 weights down to 2^-9.",
"C13": "Labels given as lists.",
"C14": "Also loops written by a user around the model's own optimiser.",
"C15": "Importance-sampled runs, the configuration of the model before and after, and the data each training step uses.",
"C16": "Runs in which the parameters never move: the change is exactly zero and must not count as below a zero bound. Models of 60 to 200 features.",
"C18": "Default schedules and omitted options.",
"C17": "Refits with other classes, supports of the dedicated portfolio.",
"C22": "The second sample-average solver too.",
"C23": "Points placed just on both sides of the decision boundary; up to 11 classes.",
"C26": "Parameters of zero dimensions, multiplicative updates of weights from 1e-20 to 1e12.",
"C28": "Coincidences such as equal sampler and solver regularisation, small L2 weights, very small and large learning rates.",
"C29": "Training without warm-up, batches of up to 150 points.",
"C30": "Long enough runs for the self-tuned optimisers to move, schedules of a few steps so that the learning-rate schedule shows.",
"C33": "Gradients undefined in the data only, or in the labels only; steep losses, with gradients up to a million and more; dual variables up to 1e5.",
}

# seconds, quick and thorough, on an idle machine with 8 cores
COST = {"C%02d" % (k + 1): c for k, c in enumerate([
    (4, 7), (4, 10), (5, 8), (4, 9), (4, 10), (4, 10), (3, 7), (5, 9), (5, 12), (4, 8),
    (2, 6), (2, 6), (4, 10), (7, 31), (7, 28), (6, 18), (12, 47), (7, 21), (8, 45), (3, 10),
    (5, 24), (5, 31), (11, 30), (18, 82), (7, 21), (4, 14), (3, 4), (8, 36), (4, 17), (10, 61),
    (20, 108), (8, 60), (3, 12), (11, 43), (12, 51), (5, 15), (2, 5), (11, 49), (6, 40), (27, 200), (65, 200)])}
