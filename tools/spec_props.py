C = "regain/covariance/"
prop("C01", "Static graphical lasso returns the documented optimum",
     "For any data matrix or empirical covariance and any positive regularisation (scalar or one "
     "value per entry), a graphical lasso run that reports convergence returns a symmetric positive "
     "definite precision matrix, and no other positive definite matrix has a lower value of minus "
     "log-determinant plus trace term plus the l1 norm of the off-diagonal entries, beyond the "
     "requested tolerance. The optimum reached does not depend on the starting point, the penalty "
     "parameter and its update rule, or over-relaxation. On well-posed problems the run converges.",
     ["inputs", "configurations"],
     "all covariance matrices, regularisation values, ADMM options and starting points",
     "The tests check shapes or one fixed random problem with a loose tolerance; a wrong sign, scale "
     "or penalty in the iteration still returns plausible matrices.",
     [C + "graphical_lasso_.py", "regain/prox.py", "regain/update_rules.py"],
     [("graphical_lasso", C + "graphical_lasso_.py"), ("GraphicalLasso.fit", C + "graphical_lasso_.py"),
      ("prox_logdet, soft_thresholding_off_diagonal", "regain/prox.py"),
      ("update_rho", "regain/update_rules.py")],
     "run-time optimality monitor: independent objective + reference solver + KKT residual",
     SOLV_NOTE, observe="return values of the solver function and fitted attributes of the estimator")
prop("C02", "Time-varying graphical lasso returns the documented optimum",
     "For any sequence of covariances with any sample counts, any regularisation (one value, one per "
     "time or transition, or one per entry) and any of the laplacian, l1, l2 and l-infinity temporal "
     "penalties, a converged run returns one symmetric positive definite precision per time, and no "
     "other such sequence lowers the sum of sample-weighted Gaussian loss, off-diagonal l1 norm and "
     "penalty on consecutive differences. With no temporal penalty the solution is that of separate "
     "problems, and with an overwhelming one it is constant in time.",
     ["inputs", "configurations"],
     "all data sequences, regularisation values, temporal penalties, ADMM options and starting points",
     "The tests fit one random data set per penalty and look at shapes or a loose total; they cannot "
     "tell an off-by-one in the coupling or a wrong weight from the right answer.",
     [C + "time_graphical_lasso_.py", "regain/prox.py", "regain/norm.py", "regain/validation.py"],
     [("time_graphical_lasso", C + "time_graphical_lasso_.py"),
      ("check_norm_prox", "regain/validation.py"), ("prox_laplacian, prox_node_penalty, prox_linf", "regain/prox.py")],
     "run-time optimality monitor: independent objective + reference solver",
     SOLV_NOTE, observe="return values of the solver function and fitted attributes")
prop("C03", "Kernel time graphical lasso returns the documented optimum",
     "For any symmetric kernel matrix, or kernel function evaluated on the time labels, or no kernel, a "
     "converged run of the kernel time graphical lasso returns one positive definite precision per time "
     "and no other such sequence lowers the weighted Gaussian loss plus off-diagonal l1 norm plus, over "
     "all pairs of times, the kernel-weighted penalty on their difference. A kernel that links only "
     "consecutive times gives the solution of the plain time graphical lasso. Where the similarity is "
     "learned, or the kernel parameter is searched for (the one within range that couples the estimates least), "
     "the estimates are the optimum for the kernel the run ends with.",
     ["inputs", "configurations"],
     "all data sequences, kernels, labels, regularisation values, penalties, options, starting points",
     "Tests use one kernel on one data set; pairs at lag two or more, zero-weight pairs and irregular "
     "labels are not distinguished from a wrong implementation.",
     [C + "kernel_time_graphical_lasso_.py", "regain/prox.py"],
     [("kernel_time_graphical_lasso", C + "kernel_time_graphical_lasso_.py"),
      ("KernelTimeGraphicalLasso", C + "kernel_time_graphical_lasso_.py"),
      ("SimilarityTimeGraphicalLasso", C + "kernel_time_graphical_lasso_.py")],
     "run-time optimality monitor: independent objective + reference solver",
     SOLV_NOTE, observe="return values of the solver function and fitted attributes")
prop("C04", "Latent graphical lasso returns the documented optimum",
     "For any covariance and positive regularisations, a converged latent graphical lasso run returns a "
     "sparse part and a positive semidefinite latent part whose difference is positive definite, and no "
     "other such pair lowers the Gaussian loss of the difference plus the off-diagonal l1 norm of the "
     "sparse part plus the nuclear norm of the latent part. The observed precision exposed by the "
     "estimator is that difference.",
     ["inputs", "configurations"],
     "all covariance matrices, regularisation values, ADMM options and starting points",
     "Tests only look at shapes or a single loose value; premature stopping or a latent part that is not "
     "semidefinite would pass.",
     [C + "latent_graphical_lasso_.py", "regain/prox.py"],
     [("latent_graphical_lasso", C + "latent_graphical_lasso_.py"),
      ("prox_trace_indicator", "regain/prox.py")],
     "run-time optimality monitor: independent objective + reference solver",
     SOLV_NOTE, observe="return values and fitted attributes")
prop("C05", "Latent time graphical lasso returns the documented optimum",
     "For any sequence of covariances, sample counts, regularisations and pair of temporal penalties, a "
     "converged latent time graphical lasso run returns sparse parts and positive semidefinite latent "
     "parts with positive definite differences, and no other such pair of sequences lowers the "
     "documented objective: weighted Gaussian loss, off-diagonal l1 norm, nuclear norm, and temporal "
     "penalties on consecutive differences of both sequences.",
     ["inputs", "configurations"],
     "all data sequences, four regularisations, pairs of penalties, ADMM options, starting points",
     "Tests fit one random data set; swapped penalties, a mis-weighted latent coupling or early stopping "
     "still give plausible shapes.",
     [C + "latent_time_graphical_lasso_.py", "regain/prox.py", "regain/norm.py"],
     [("latent_time_graphical_lasso", C + "latent_time_graphical_lasso_.py")],
     "run-time optimality monitor: independent objective + reference solver",
     SOLV_NOTE, observe="return values and fitted attributes")
prop("C06", "Kernel latent time graphical lasso returns the documented optimum",
     "For any pair of kernels (matrix, function of the labels, or absent), regularisations and pair of "
     "penalties, a converged kernel latent time graphical lasso run returns sparse parts and positive "
     "semidefinite latent parts with positive definite differences, and no other such pair of sequences "
     "lowers the weighted Gaussian loss plus l1 and nuclear norms plus the kernel-weighted penalties over "
     "all pairs of times for the sparse and for the latent sequence.",
     ["inputs", "configurations"],
     "all data sequences, kernels, regularisations, pairs of penalties, ADMM options, starting points",
     "Tests use one kernel and one data set and check shapes; ignored or swapped parameters pass.",
     [C + "kernel_latent_time_graphical_lasso_.py", "regain/prox.py"],
     [("kernel_latent_time_graphical_lasso", C + "kernel_latent_time_graphical_lasso_.py"),
      ("KernelLatentTimeGraphicalLasso, SimilarityLatentTimeGraphicalLasso",
       C + "kernel_latent_time_graphical_lasso_.py")],
     "run-time optimality monitor: independent objective + reference solver",
     SOLV_NOTE, observe="return values and fitted attributes")
prop("C07", "Forward-backward solver descends to the same optimum",
     "Run to convergence, the forward-backward solver for the time-varying graphical lasso returns a "
     "positive definite sequence that no other positive definite sequence improves on, for total "
     "variation and for laplacian coupling and for step sizes chosen by line search on either parameter or "
     "fixed. Along any run with a line search the objective never increases and every iterate stays "
     "positive definite.",
     ["inputs", "configurations", "histories"],
     "all data sequences, penalties, regularisations and step rules; every iterate of a run",
     "Tests run a handful of iterations on one data set; neither the limit nor monotonicity is observed.",
     ["regain/forward_backward/time_graphical_lasso_.py", "regain/prox.py"],
     [("tgl_forward_backward", "regain/forward_backward/time_graphical_lasso_.py"),
      ("choose_gamma, choose_lamda", "regain/forward_backward/time_graphical_lasso_.py"),
      ("prox_FL", "regain/prox.py")],
     "trace monitor over the iterate history + reference-solver optimality oracle",
     "Descent judged on every step in the recorded history; optimum judged on well-conditioned "
     "problems." + TRUST, observe="return values including history")
prop("C08", "Sparse plus low-rank decomposition returns the documented optimum",
     "For any symmetric matrix, or sequence of symmetric matrices with temporal penalties, a converged "
     "decomposition returns a sparse part and a positive semidefinite low-rank part, and no other such "
     "pair lowers the squared distance of their difference to the input (halved for a single matrix) plus "
     "off-diagonal l1 norm plus nuclear norm plus temporal penalties on both sequences.",
     ["inputs", "configurations"],
     "all symmetric matrices (definite or not), regularisations, penalties, options and axis layouts",
     "One smoke test; no comparison with any optimum.",
     [C + "infimal_convolution_.py", C + "latent_time_matrix_decomposition.py"],
     [("infimal_convolution", C + "infimal_convolution_.py"),
      ("latent_time_matrix_decomposition", C + "latent_time_matrix_decomposition.py")],
     "run-time optimality monitor: independent objective + reference solver",
     SOLV_NOTE, observe="return values and fitted attributes")
prop("C09", "Fitting depends on the data only through per-label moments",
     "Fitting any covariance estimator gives what the corresponding solver returns for the per-label "
     "covariances (centred on each label's mean, or on zero when data are declared centred) and sample "
     "counts, with labels sorted and one location per label. Row order, label names, per-label shifts and "
     "memory layout change nothing; permuting variables or reversing time permutes or reverses the "
     "estimates. Non-finite, one-dimensional, single-variable or mismatched inputs raise a value error.",
     ["inputs", "configurations"],
     "all data matrices, labels (numbers or strings, any order, unbalanced), estimators and options",
     "Tests use balanced sorted integer labels in row order with one estimator configuration each.",
     [C + "time_graphical_lasso_.py", C + "kernel_time_graphical_lasso_.py", C + "graphical_lasso_.py",
      C + "latent_graphical_lasso_.py", C + "latent_time_graphical_lasso_.py",
      C + "kernel_latent_time_graphical_lasso_.py", "regain/forward_backward/time_graphical_lasso_.py"],
     [("TimeGraphicalLasso.fit", C + "time_graphical_lasso_.py"),
      ("GraphicalLasso.fit", C + "graphical_lasso_.py")],
     "differential and metamorphic monitors on fit",
     "Estimator output compared with a direct solver call on moments computed in regmon, and with "
     "transformed inputs." + TRUST, observe="fitted attributes")
prop("C10", "Proximal operators are exact and match the penalties they are paired with",
     "For any input array and any non-negative threshold (scalar or one per time), every shrinkage or "
     "proximal operator the solvers use - entrywise, off-diagonal, vector and block soft-thresholding, "
     "l-infinity, log-determinant, trace with semidefinite constraint, laplacian, one-dimensional fused "
     "lasso - returns the unique minimiser of its penalty plus half the squared distance to the input, "
     "without modifying the input. For every temporal penalty name the norm used in objectives is the one "
     "whose proximal operator is used in the iterations, and every norm function returns, for each matrix of "
     "its input, the norm it is named after.",
     ["inputs"], "all arrays (ties, zeros, extreme scales, batches) and all thresholds",
     "Tests compare a few hand-picked values; an operator that is wrong only for ties, zero columns, "
     "large thresholds or batches passes.",
     ["regain/prox.py", "regain/norm.py", "regain/validation.py"],
     [("soft_thresholding*, blockwise_soft_thresholding*, prox_linf, prox_logdet*, prox_trace_indicator, "
       "prox_laplacian, prox_FL", "regain/prox.py"), ("check_norm_prox", "regain/validation.py")],
     "run-time optimality-condition monitor on operator calls (direct and in situ during fits)",
     "Optimality conditions of the proximal problem evaluated on every observed output." + TRUST,
     observe="arguments and return values of the operators")
prop("C11", "Solver reports are truthful and reporting options change nothing",
     "For any problem, tolerance and iteration limit, the iteration count equals the iterations recorded "
     "and never exceeds the limit; a run stops before the limit only if its last residuals are below the "
     "thresholds implied by the requested tolerances, at the first such iteration, or its numbers overflow, "
     "and a non-convergence warning appears exactly unless they are below finite thresholds; the objective recorded last is the documented objective at the "
     "returned estimate; the returned covariance inverts the returned precision. Lower limits or looser "
     "tolerances give a prefix of the same run, and history, verbosity and objective flags never change "
     "the estimates. A target objective stops the run the first time it is reached.",
     ["inputs", "configurations", "histories"],
     "all solvers, problems, tolerances, iteration limits, reporting flags; every iteration of a run",
     "Tests check that a history is returned for one data set, never its consistency along runs.",
     [C + "graphical_lasso_.py", C + "latent_graphical_lasso_.py", C + "time_graphical_lasso_.py",
      C + "kernel_time_graphical_lasso_.py", C + "latent_time_graphical_lasso_.py",
      C + "kernel_latent_time_graphical_lasso_.py", C + "infimal_convolution_.py",
      C + "latent_time_matrix_decomposition.py", "regain/forward_backward/time_graphical_lasso_.py"],
     [("convergence, check_convergence history", "regain/utils.py"),
      ("time_graphical_lasso and the other solver loops", C + "time_graphical_lasso_.py")],
     "offline trace checker over recorded solver histories, differential runs",
     "Histories of several runs of the same problem are checked against each other and against an "
     "independent objective." + TRUST, observe="history, iteration count, warnings, return values")
prop("C12", "Scores and distances of fitted estimators are those of the Gaussian model",
     "For any fitted covariance estimator and any test data, the score is the Gaussian log-likelihood of "
     "the test covariances, taken around the fitted means, under the observed precisions (per-sample "
     "average for static models, sum over the labels for time-varying ones), whatever the row order, "
     "label type or group sizes; Mahalanobis distances and covariance errors use the fitted location and "
     "the same matrices, and observed precision is sparse minus latent part. Scoring changes nothing in "
     "the estimator.",
     ["inputs", "configurations"], "all estimators, fitted models, test sets, labels and centring options",
     "Tests only call score on training data or compare it loosely.",
     [C + "time_graphical_lasso_.py", C + "latent_time_graphical_lasso_.py",
      C + "latent_graphical_lasso_.py", C + "graphical_lasso_.py"],
     [("TimeGraphicalLasso.score, error_norm, mahalanobis", C + "time_graphical_lasso_.py"),
      ("get_observed_precision", C + "latent_time_graphical_lasso_.py")],
     "reference-model monitor on score/distance calls",
     "Every score is compared with densities computed from their definition." + TRUST,
     observe="return values of score, mahalanobis, error_norm, get_observed_precision")
prop("C13", "Model-selection criteria compute their formulas",
     "For any covariance and precision, or stacks over time, the log-likelihood is log-determinant minus "
     "trace (minus infinity for a negative determinant), and the BIC, extended BIC and modified extended "
     "BIC are that value (summed over times) minus their penalty on the number of non-zero off-diagonal "
     "entries, with any sample number and any epsilon. They are invariant to permuting variables or "
     "times, and the losses used as solver objectives are the same likelihood weighted by sample counts.",
     ["inputs"], "all covariances, positive definite precisions, numbers of times, samples, epsilon",
     "Tests do not touch the criteria beyond import; sign, scale or axis slips are invisible.",
     ["regain/scores.py", "regain/math.py", C + "time_graphical_lasso_.py"],
     [("log_likelihood(_t), BIC(_t), EBIC(_t), EBIC_m(_t)", "regain/scores.py"),
      ("batch_logdet, fill_diagonal, get_diagonal", "regain/math.py"),
      ("loss", C + "time_graphical_lasso_.py")],
     "reference-model monitor on criterion calls",
     "Values compared with the formulas evaluated independently." + TRUST, observe="return values")
prop("C14", "Network error measures count what they claim",
     "For any true and estimated networks, single or stacked over time, signed, empty or full, with or "
     "without diagonal and thresholding, the reported true/false positives/negatives are the counts over "
     "entries, every derived ratio follows from them (staying in [0,1] when undefined), average precision "
     "ranks edges by absolute weight, a perfect estimate is reported as perfect, averages over several "
     "estimates are means and deviations, and norm and rank errors are the documented norms of the "
     "difference. Inputs are not modified.",
     ["inputs"], "all pairs of networks and stacks of networks and all options",
     "Tests evaluate one example; negative weights, empty networks and stacks are not covered.",
     ["regain/utils.py"],
     [("structure_error, mean_structure_error, error_norm, error_norm_time, error_rank", "regain/utils.py")],
     "reference-model monitor on evaluation calls",
     "Entry-by-entry recount." + TRUST, observe="returned dictionaries and numbers")
prop("C15", "Conversion, repair and persistence helpers are faithful",
     "Converting per-class samples of any sizes to one matrix with labels keeps every sample, in order, "
     "with its class; flattening keeps every leaf in order; a list of upper-triangle values expands to "
     "the symmetric matrix; diagonals and log-determinants are handled matrix by matrix in stacks of any "
     "depth; definiteness tests answer by the sign of the smallest eigenvalue, and repair makes any "
     "symmetric matrix positive definite changing only the diagonal, and only when needed; normalisation "
     "and thresholding change exactly what they should; saved objects and networks read back equal; the "
     "penalty update balances residuals as documented.",
     ["inputs", "histories"],
     "all nested lists, sample lists, matrices and stacks, thresholds, objects and networks",
     "Tests use one small example each (or none) and never a stack, an unequal class size, an indefinite "
     "matrix or a file.",
     ["regain/utils.py", "regain/math.py", "regain/update_rules.py"],
     [("flatten, convert_data_to_2d, upper_to_full, compose, ensure_posdef, is_pos_def, is_pos_semidef, "
       "normalize_matrix, threshold, save_pickle, load_pickle, write_network, read_network",
       "regain/utils.py"), ("batch_logdet, fill_diagonal, get_diagonal, create_from_diagonal",
                            "regain/math.py"), ("update_rho, update_gamma", "regain/update_rules.py")],
     "reference-model monitor and write/read round-trip monitor",
     "Element-by-element reconstruction of every result; files live in a scratch directory." + TRUST,
     observe="return values, arguments after the call, files written")
prop("C16", "Fitting is pure, repeatable and independent of history",
     "However fit, score, refit on other data, clone, pickling and grid search are interleaved, the "
     "arrays, labels and parameters handed to an estimator or solver are never modified, nor do results "
     "share memory with them; the global random state is not consumed (by the Bayesian search, only for "
     "its stated random choices); and after each fit the estimator "
     "holds exactly what a fresh estimator with the same parameters holds after seeing that data alone. "
     "Grid search over a parameter reports the scores of separate fits.",
     ["inputs", "histories", "configurations"],
     "all estimators, parameters (including arrays and kernels), data sets and orders of calls",
     "Tests fit once; warm-started, cached or overwritten state shows only on a later call.",
     [C + "graphical_lasso_.py", C + "latent_graphical_lasso_.py", C + "time_graphical_lasso_.py",
      C + "kernel_time_graphical_lasso_.py", C + "latent_time_graphical_lasso_.py",
      C + "kernel_latent_time_graphical_lasso_.py", C + "infimal_convolution_.py",
      C + "latent_time_matrix_decomposition.py", "regain/forward_backward/time_graphical_lasso_.py"],
     [("fit and _fit of every estimator", C + "time_graphical_lasso_.py"),
      ("init_precision", C + "graphical_lasso_.py")],
     "state monitor over random call sequences (snapshots of inputs, parameters and results)",
     "Every call in a random sequence is followed by comparisons with copies and with a fresh "
     "estimator." + TRUST, observe="arguments, parameters and fitted attributes after every call")
prop("C17", "Gaussian data sets are drawn from the model they report",
     "Whenever make_dataset returns a Gaussian data set, it holds for every time a symmetric precision, a "
     "positive semidefinite latent part of the requested rank and their positive definite difference; the "
     "samples labelled with a time are independent draws from the zero-mean normal distribution whose "
     "precision is that difference; data, stacked matrix and labels agree in either axis layout; and "
     "consecutive models differ only as the mode documents: few edges (l1), a small norm (l2), no new "
     "edges (kept or fixed sparsity), a fixed latent part, a periodic diagonally dominant one (sin). The radial "
     "generator reports joint precisions with latent variables, which marginalise to the observed ones. Equal seeds give equal data; a user-defined generator is used as is; unknown options are refused.",
     ["inputs", "configurations", "histories"],
     "all sizes, numbers of latent variables and times, update rules, options and random seeds",
     "Tests only call the generators; the relation between samples and reported matrices is statistical "
     "and the evolution spans several times, so a single call settles neither.",
     ["regain/datasets/base.py", "regain/datasets/gaussian.py", "regain/datasets/kernels.py"],
     [("make_dataset, _gaussian_case", "regain/datasets/base.py"),
      ("make_covariance, make_starting, make_ell, _update_theta_l1, _update_theta_l2, make_fixed_sparsity, "
       "make_sin, make_sin_cos, make_ma_xue_zou", "regain/datasets/gaussian.py"),
      ("make_exp_sine_squared, make_RBF", "regain/datasets/kernels.py")],
     "invariant monitor on generated models and statistical monitor (whitening, tails below 1e-9) on samples",
     "Refusals of the generators themselves are counted as undecided." + TRUST,
     observe="returned bunch")
prop("C18", "Discrete and multi-class data sets follow the networks they report",
     "Ising and Poisson networks are symmetric, have no self-loops and at each time differ from the "
     "previous one in at most the requested number of edges; every Ising sampler (Gibbs, coupling from "
     "the past, direct enumeration) draws from the Boltzmann distribution of its network, fields and "
     "temperature over the two responses, respecting fixed variables; Poisson samples are counts whose "
     "means and covariances, or joint law for the pairwise sampler, are those of the network. Class "
     "networks are valid for their distribution, differ from the first in at most a tenth of the absent "
     "and of the present edges, and samples carry the right labels. Arguments are not modified and equal "
     "seeds give equal data.",
     ["inputs", "configurations", "histories"],
     "all networks, fields, temperatures, response pairs, samplers, graph types, sizes and seeds",
     "Tests call make_dataset with three variables and one time and look at nothing; the law of the "
     "samples is only visible statistically.",
     ["regain/datasets/ising.py", "regain/datasets/poisson.py", "regain/datasets/multi_class.py",
      "regain/datasets/base.py"],
     [("ising_theta_generator, update_ising_l1, ising_sampler, p_plus, p_plus_minmax, hamiltonian, "
       "direct_sampling", "regain/datasets/ising.py"),
      ("poisson_theta_generator, update_l1, poisson_sampler", "regain/datasets/poisson.py"),
      ("make_multiclass_dataset", "regain/datasets/multi_class.py"),
      ("_ising_case, _poisson_case", "regain/datasets/base.py")],
     "statistical monitor against exact enumeration, invariant monitor on generated networks",
     "Distributions enumerated exactly on small networks; tails below 1e-9 only." + TRUST,
     observe="returned networks and samples")
L = "regain/linear_model/"
prop("C19", "Lasso, group lasso and overlapping group lasso return the documented optimum",
     "For any design matrix (tall or wide), response, positive regularisation and groups (a partition for "
     "the group lasso, any possibly overlapping or incomplete cover for the overlapping one), a converged "
     "run returns coefficients that no others improve on: half the squared residual plus the l1 norm, or "
     "plus the sum of the groups' norms. The regression estimator solves this for every target on centred "
     "data with the matching intercept and linear predictions; the classifier picks the label of the "
     "largest one-against-rest regression. Reported histories and iteration counts are those of the run.",
     ["inputs", "configurations"],
     "all designs, responses, regularisations, groups, ADMM penalties, over-relaxations and targets",
     "Tests fit one identity design and look at the number of coefficients.",
     [L + "lasso_.py", L + "group_lasso_.py", L + "group_lasso_overlap_.py"],
     [("lasso", L + "lasso_.py"), ("group_lasso", L + "group_lasso_.py"),
      ("group_lasso_overlap, GroupLassoOverlap, GroupLassoOverlapClassifier", L + "group_lasso_overlap_.py")],
     "run-time optimality monitor: KKT residuals and duality gap",
     "Optimality certificates computed from the returned point; the ported PASPAL mode is not "
     "covered." + TRUST, observe="return values and fitted attributes")
prop("C20", "Discriminant analysis applies Bayes' rule to the class densities",
     "For any number of classes under any labels, in any row order and balance, a fitted discriminant "
     "analysis holds the sorted classes, the given priors or the class frequencies, the class means and one "
     "precision per class; decision values, posteriors (rows summing to one) and log-posteriors are those of "
     "Gaussian class densities times priors, predictions the class with the largest, score the (weighted) "
     "accuracy. Repair of indefinite precisions changes only their diagonal, leaves definite ones and the "
     "wrapped estimator alone. Unusable input is refused.",
     ["inputs", "configurations"],
     "all class balances, label types, row orders, priors, wrapped estimators and precisions",
     "There are no tests; a mismatch of class order, prior or constant is invisible on balanced classes.",
     ["regain/discriminant_analysis.py"],
     [("DiscriminantAnalysis", "regain/discriminant_analysis.py"), ("ensure_posdef", "regain/utils.py")],
     "reference-model monitor: Gaussian densities and Bayes' rule written independently",
     "Stand-in estimators give full control over the precisions; repair with latent estimators is not "
     "covered." + TRUST, observe="fitted attributes and predictions")
GM = "regain/generalized_linear_model/"
prop("C21", "Gaussian, Ising and Poisson graphical models reach their penalised optimum",
     "For any data of its kind and positive regularisation, a converged fit of a graphical model with "
     "Gaussian, Ising or Poisson conditionals satisfies the optimality conditions of the l1-penalised "
     "conditional likelihood (per neighbourhood, or jointly for the symmetric Ising model, also with a "
     "quadratic proximity term); losses and objectives are the documented ones and infinite for a "
     "non-symmetric matrix; neighbourhoods combine by union or intersection into a symmetric network; step "
     "size, tolerance and iteration limit given are those used; the recorded history is that of the run.",
     ["inputs", "configurations"],
     "all Gaussian, binary and count data, regularisations, step sizes, iteration limits and rules",
     "There are no tests of the optimum; a gradient that misses samples or terms still converges somewhere.",
     [GM + "glm_gaussian.py", GM + "glm_ising.py", GM + "glm_poisson.py", GM + "base.py"],
     [("fit_each_variable, Gaussian_GLM_GM", GM + "glm_gaussian.py"),
      ("loss, objective, _gradient_ising, _fit, IsingGraphicalModel", GM + "glm_ising.py"),
      ("loss, objective, fit_each_variable, PoissonGraphicalModel", GM + "glm_poisson.py"),
      ("build_adjacency_matrix", GM + "base.py")],
     "run-time optimality monitor: KKT residuals of the pseudo-likelihood; trace monitor on histories",
     "Without intercept; steps below the stability limit." + TRUST,
     observe="return values, histories and fitted attributes")
prop("C22", "The temporal Ising model returns its penalised optimum",
     "For any sequence of binary data sets, regularisation, kernel over times (given, evaluated on the "
     "labels, or none) and temporal penalty, a run that does not warn returns one symmetric network per time "
     "and no other sequence lowers the pseudo-likelihood loss plus off-diagonal l1 norm plus kernel-weighted "
     "penalty on differences; it warns exactly when it did not reach its tolerances; recorded objectives and "
     "iteration counts are those of the run; the estimator solves the problem of the samples of each label. "
     "Invalid options are refused.",
     ["inputs", "configurations"],
     "all binary sequences, kernels, labels, penalties, regularisations and ADMM options",
     "No test looks at the optimum; a wrong weight between copies shifts it by a few per cent.",
     [GM + "glm_time_ising.py", GM + "glm_ising.py", "regain/prox.py"],
     [("_fit_time_ising_model, TemporalIsingModel", GM + "glm_time_ising.py")],
     "run-time optimality monitor: independent objective + reference solver; trace monitor on histories",
     "ker_param='auto' and other temporal conditionals are not covered." + SOLV_NOTE,
     observe="return values, histories and fitted attributes")
B = "regain/bayesian/"
prop("C24", "Wishart laws, conjugate updates and Markov chain moves follow their densities",
     "For any scale matrix, degrees of freedom and mean, the Wishart, inverse Wishart and normal inverse "
     "Wishart objects evaluate the density of that name, report its mean and mode, and sample from it; the "
     "posterior given data is proportional to prior times likelihood, predictive and marginal laws agree "
     "with it, and data taken one at a time give the posterior of all; Gaussian process samples have the "
     "given kernel; every Markov chain move (elliptical slice, kernel width, scale factor) leaves its "
     "posterior invariant and keeps its state consistent; lognormal, matrix and time-varying likelihoods "
     "and the derivatives of the G-Wishart exponent are the stated ones.",
     ["inputs", "schedules"],
     "all parameters, data sets and random draws; chains of any length by invariance of one move",
     "There are no tests; a biased sampler or an off-by-one in degrees of freedom is only visible in law.",
     [B + "wishart_distribution_.py", B + "sampling.py", B + "stats.py", B + "gaussian_process_.py",
      B + "_laplace_approximation.py"],
     [("WishartDistribution, InverseWishartDistribution, NormalInverseWishartDistribution",
       B + "wishart_distribution_.py"),
      ("elliptical_slice, sample_hyper_kernel, sample_ell, GWP_construct", B + "sampling.py"),
      ("lognormal_pdf, lognstat, log_lik_frob, t_mvn_logpdf", B + "stats.py"),
      ("sample", B + "gaussian_process_.py"), ("h, first_derivative_h", B + "_laplace_approximation.py")],
     "reference-model monitor on densities; statistical monitor (tails below 1e-9) on samples and chain moves",
     "Chains are judged on one-dimensional targets; the full Wishart process fit is not covered." + TRUST,
     observe="return values and samples")
prop("C25", "The Bayesian search over graphs fits, scores and averages what it says",
     "All undirected graphs on n nodes are generated once, by number of edges; Markov blankets are the "
     "neighbours of each variable and their scores a distribution per variable; the G-Wishart fit of a graph "
     "is the symmetric positive definite matrix with zeros off the graph whose inverse agrees with the "
     "posterior scale on it, in both modes; its score is the BIC or the (diagonal) Laplace approximation of "
     "the marginal likelihood; the Bayesian graphical lasso returns the mean of the best-scored candidates, "
     "reproducibly for a random state, with matching covariance, location and likelihood. Inputs are not "
     "modified and mismatched sizes refused.",
     ["inputs", "configurations"],
     "all graphs, samples, priors, scorings, modes and numbers of averaged candidates",
     "There are no tests; wrong scores only change which graph wins.",
     [B + "gwishart_inference.py"],
     [("mk_all_ugs, markov_blankets, score_blankets", B + "gwishart_inference.py"),
      ("covsel, precision_selection, GWishartFit", B + "gwishart_inference.py"),
      ("compute_score, GWishartScore", B + "gwishart_inference.py"),
      ("bayesian_graphical_lasso, BayesianGraphicalLasso", B + "gwishart_inference.py")],
     "likelihood equations and independent score formulas on watched calls of the search",
     "Badly scaled fits, beyond the optimiser's absolute tolerance, are only checked for validity." + TRUST,
     observe="return values, candidates scored during the search, fitted attributes")
prop("C23", "Graph clustering, stability and ranking helpers compute what they say",
     "The representative of a set of graphs has exactly their common edges; the distance of two graphs is the "
     "number of edges in only one of them; the kernel of graph k-means is finite, symmetric, positive "
     "semidefinite and equal for graphs with equal edges; the instability of estimators is the average over "
     "edges and times of 2 f (1 - f), with f the fraction of networks having the edge, and its bound 4 D (1 - "
     "D); temporal similarities decrease linearly from one to zero with the distance of the networks; the "
     "largest entries, words and documents are the ones selected; suppressed output is restored, also "
     "on errors. No argument is modified.",
     ["inputs"],
     "all sets of graphs, static or over time, and all matrices",
     "There are no tests of these functions.",
     ["regain/clustering.py", "regain/model_selection/stability_optimization.py", "regain/utils.py",
      C + "kernel_time_graphical_lasso_.py", GM + "glm_time_ising.py"],
     [("get_representative, compute_distances, graph_k_means", "regain/clustering.py"),
      ("global_instability, upper_bound", "regain/model_selection/stability_optimization.py"),
      ("precision_similarity", C + "kernel_time_graphical_lasso_.py"),
      ("precision_similarity", GM + "glm_time_ising.py"),
      ("top_n_indexes, retain_top_n, logentropy_normalize, display_topics, suppress_stdout", "regain/utils.py")],
     "reference-model monitor: every value recomputed edge by edge",
     "The random start of graph k-means is not controlled: its kernel is judged by what every start must "
     "satisfy." + TRUST, observe="return values")
prop("C27", "The Wishart process reports the chain it ran and its best state",
     "For any data, labels, kernel and chain length, every recorded state of the Wishart process (Gaussian process "
     "values, scale factor, kernel width) is recorded with the log-likelihood of the covariances it stands for; "
     "the estimator drops exactly the burn-in, reports the state of highest likelihood among the rest, with "
     "the positive definite covariances built from it, their inverses and the label means; its score is the Gaussian "
     "log-likelihood of the data around these means, for any number of samples per label; predictions use "
     "the conditional mean of the process, and give the fitted covariances at the training times. Equal seeds "
     "give equal chains, whatever the row order, also for clones and refits; arguments are not modified.",
     ["inputs", "configurations", "histories"],
     "all data, labels, kernels, given or learned scale factors, chain lengths and burn-ins",
     "There are no tests; a chain whose records do not belong together still looks like a chain.",
     ["regain/bayesian/wishart_process_.py", "regain/bayesian/sampling.py", "regain/bayesian/stats.py"],
     [("fit, predict, WishartProcess", "regain/bayesian/wishart_process_.py"),
      ("GWP_construct, elliptical_slice, sample_ell", "regain/bayesian/sampling.py"),
      ("t_mvn_logpdf", "regain/bayesian/stats.py")],
     "recorded-chain checker: likelihood hooked, every recorded state re-evaluated offline from the definitions",
     "The law of the whole chain is not claimed (that of its moves is, in C24)." + TRUST,
     observe="return values of the chain, calls of its likelihood, attributes of the estimator")
prop("C26", "The graphical lasso with missing data completes and estimates what it says",
     "For any data with any pattern of missing entries and positive regularisation, the completed data keep "
     "every observed entry and fill the missing ones with their conditional means given the observed ones "
     "under the current mean and precision (shrunk by one common factor so that none exceeds one in size); "
     "the reported covariance is proportional to the expected second moments, largest entry one; "
     "the precision is the graphical lasso optimum of that covariance, symmetric and positive definite; "
     "means average the completed data. Permuting samples or variables permutes the result. It warns "
     "exactly when the log-likelihood has not settled; recorded histories and iteration counts are those of the run; "
     "the estimator exposes the solver's results and data are not modified.",
     ["inputs", "configurations"],
     "all data, missing patterns (none, single entries, whole samples), regularisations and iteration limits",
     "There are no tests; plausible imputations hide wrong indices or moments.",
     [C + "missing_graphical_lasso_.py", C + "graphical_lasso_.py"],
     [("compute_cs, compute_mean, compute_empirical_covariance", C + "missing_graphical_lasso_.py"),
      ("missing_graphical_lasso, MissingGraphicalLasso", C + "missing_graphical_lasso_.py")],
     "replay monitor: expectation-maximisation steps written independently; optimality monitor; permutation "
     "monitor", "The common scalings are part of the algorithm as written." + SOLV_NOTE,
     observe="return values of the solver, its steps and the estimator")
prop("C28", "Figures show what they are given and bundled data load as stored",
     "For any two-dimensional covariance, mean and number of deviations, the curve or ellipse drawn is the set of "
     "points at that many standard deviations from the mean; for any network, every node and exactly the edges of the "
     "network are drawn, joining the positions of their ends, with widths following the weights and texts giving "
     "labels, weights and numbers of connections; for any true and predicted networks (one, or several over time), "
     "the curves are the receiver operating or precision-recall curves of the predictions, the legend gives their "
     "areas, and with several predictions the mean curve and the deviation of the areas. The bundled data sets "
     "load as stored, group memberships aligned with the variables. No argument is modified.",
     ["inputs", "configurations"],
     "all covariances, networks (empty to full), labels, predictions with ties, numbers of algorithms and folds",
     "There are no tests of figures or loaders; a figure of the wrong curve looks as good as the right one.",
     ["regain/plotting/covariance.py", "regain/plotting/graph.py", "regain/plotting/plotly.py",
      "regain/plotting/results.py", "regain/data/base.py"],
     [("plot_cov_2d, plot_cov_ellipse", "regain/plotting/covariance.py"),
      ("plot_graph_with_latent_variables, plot_meinshausen_yuan", "regain/plotting/graph.py"),
      ("plot_network, plot_circular, lines_straight, lines_chord", "regain/plotting/plotly.py"),
      ("plot_curve, plot_roc_curves", "regain/plotting/results.py"),
      ("load_finance, load_food_search_trends", "regain/data/base.py")],
     "figure monitor: artists and traces read back and compared with geometry, edges and curves computed "
     "independently from the arguments",
     "Colours, fonts and layout algorithms are not judged; no data set is bundled for uncondensed prices." + TRUST,
     observe="artists of the axes, traces of the figure, return values of the loaders")
prop("C29", "Stability selection picks by the instability of the fits it ran",
     "For any data, labels, grid, number of repetitions and sampling size, stability selection fits every combination "
     "of the grid, from the largest values down, once on each of the same random subsamples: distinct rows with "
     "their labels in proportion, of the given size or int(min(10 sqrt(n), n - 10)), rounded down to a multiple of the "
     "number of labels. The raw instability it reports is the mean over pairs of nodes and times of 2 f (1 - f), f the "
     "share of fits with the edge; the monotonised one is the largest raw value so far, the candidate's own included. "
     "It selects the first candidate of largest monotonised instability not above 0.05 (the first candidate if none is; in "
     "graphlet mode the one of least mean graphlet distance between the two bounds), reports the means, deviations and "
     "ranks of the scores on the rows left out, and refits the selected one on all the data. Selections do "
     "not depend on earlier fits or the schedule of the jobs; data, grid and estimator are not modified; the plot draws "
     "these curves.",
     ["inputs", "configurations", "histories", "schedules"],
     "all data, labels, grids, repetitions, sampling sizes, job schedules, scorings and refit rules",
     "There are no tests; any choice of parameters looks like a selection.",
     ["regain/model_selection/stability_optimization.py"],
     [("GraphicalModelStabilitySelection", "regain/model_selection/stability_optimization.py"),
      ("_check_param_order, global_instability, graphlet_instability, upper_bound",
       "regain/model_selection/stability_optimization.py")],
     "offline checker over a log of every fit and score made during the search, sequential and threaded",
     "Graphlet distances come from a stand-in for the netanalytics package, which is not installed." + TRUST,
     observe="calls of the estimator's fit and score, results and attributes of the search, matplotlib artists")

prop("C30", "Requests outside the documented domain are refused cleanly",
     "A temporal penalty name, line-search choice or criterion, optimisation mode, error norm, data-set mode or "
     "distribution, sampling method, network evolution or regression option that is not among the documented ones; a "
     "kernel, graph or prior whose size is not that of the data; an asymmetric Ising graph, responses other than two, "
     "groups that are not a partition; non-binary data for the temporal Ising model, one class or a one-sample class for "
     "the discriminant analysis; sparse, complex, textual, non-finite, empty, mislabelled or wrongly shaped data, at "
     "fit or at scoring; and questions to a model that was never fitted, all raise an error instead of being answered. "
     "A refusal modifies no argument and leaves no estimate; a fitted estimator keeps its estimates; afterwards the "
     "same estimator, given a valid request, fits exactly as a new one. The same request without the defect is served.",
     ["inputs", "configurations", "histories"],
     "all components, sizes, defects and orders of refused and valid requests",
     "Tests never ask for something invalid; an accepted one gives a plausible wrong answer.",
     ["regain/validation.py", "regain/covariance", "regain/forward_backward", "regain/generalized_linear_model",
      "regain/linear_model", "regain/datasets", "regain/bayesian", "regain/discriminant_analysis.py", "regain/utils.py",
      "regain/model_selection/stability_optimization.py"],
     [("check_norm_prox, check_input", "regain/validation.py"),
      ("kernel size and kernel parameter checks", "regain/covariance/kernel_time_graphical_lasso_.py"),
      ("kernel size checks", "regain/covariance/kernel_latent_time_graphical_lasso_.py"),
      ("tgl_forward_backward, choose_lamda", "regain/forward_backward/time_graphical_lasso_.py"),
      ("direct_sampling, ising_sampler", "regain/datasets/ising.py"),
      ("GWishartFit, compute_score", "regain/bayesian/gwishart_inference.py")],
     "every generated request is run with and without one defect; exceptions, attributes and arguments are observed "
     "before and after, and later fits compared with those of new estimators",
     "A refusal is a value, type, index, assertion or not-implemented error; its wording is not judged." + TRUST,
     observe="exceptions raised, attributes of the estimator before and after, arguments, later fits")
