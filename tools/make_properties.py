"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


I = ["inputs"]
ECC = "medil/ecc_algorithms.py"
GR = "medil/graph.py"
IT = "medil/independence_testing.py"
MO = "medil/models.py"
SA = "medil/sample.py"
EV = "medil/evaluate.py"
VA = "medil/vae.py"
VI = "medil/visualize.py"

prop(
    "P01",
    "Exact search returns a complete, valid edge clique cover",
    "For every undirected graph, each row of the cover returned by the exact minimum clique cover search is a clique of the graph, every edge lies in at least one row, and every isolated vertex has exactly one row of its own, so that the graph read back off the cover is the input graph. This holds whether the adjacency matrix is Boolean, integer or float and with or without ones on the diagonal, and the search always returns.",
    I,
    "all undirected graphs (any size, density, labelling, disconnected or with isolated vertices), as adjacency matrices of any numeric dtype, with or without self loops",
    "The tests run the search on a triangle, a triangle plus an isolated vertex and five fixed examples with at most 8 vertices; an incomplete or non-clique row only appears for particular graphs, on which the data reductions or several levels of branching interact.",
    [ECC, GR],
    [
        ("find_clique_min_cover / branch: search tree over maximal cliques", ECC),
        ("reduction rules 1-3 and reconstruct_cover", GR),
        ("add_isolated_verts", ECC),
    ],
    ["return value of find_clique_min_cover"],
)
prop(
    "P02",
    "Exact search returns a minimum number of cliques",
    "For every undirected graph, the number of cliques returned by the exact search is the smallest number of cliques that can cover all edges (plus one per isolated vertex), and so does not depend on how the vertices are labelled. The only exception is a search that reaches its node limit, which issues a warning and still returns a complete, valid cover.",
    ["inputs", "configurations"],
    "all undirected graphs, all vertex labellings and all search limits",
    "Minimality is checked on five fixed graphs; a wrong bound, a lost branch or an unsound reduction only costs a clique on particular graphs, usually with 8 or more vertices and several branchings.",
    [ECC, GR],
    [
        ("iterative deepening on the number of cliques", ECC),
        ("choose_nbrhood and max_cliques enumerate the branches", GR),
        ("rules 2 and 3 must not lose optimal covers", GR),
    ],
    ["number of rows returned by find_clique_min_cover", "the warning about the search limit"],
)
prop(
    "P03",
    "Maximal clique enumeration is sound, complete and duplicate-free",
    "For every undirected graph, enumerating its maximal cliques yields every maximal clique exactly once and nothing else, with isolated vertices as single-vertex cliques, whether or not the adjacency matrix has ones on its diagonal. The empty graph yields nothing.",
    I,
    "all undirected graphs, dense or sparse, any dtype, with or without self loops",
    "No test calls the enumeration; it is only exercised through the cover search on a few graphs, where a missing or repeated clique usually does not change the result.",
    [ECC],
    [("max_cliques: pivoting Bron-Kerbosch with explicit stack", ECC)],
    ["the generator returned by max_cliques"],
)
prop(
    "P04",
    "One-pure-child heuristic covers every graph with pure-child latents",
    "For every undirected graph, the one-pure-child heuristic terminates without error and returns a biadjacency matrix in which every edge of the graph has a common latent parent, the number of latents is the size of a maximum independent set of the graph, and every latent has at least one measurement variable that no other latent causes and whose graph neighbours are all children of that latent.",
    I,
    "all undirected graphs, including those that do not satisfy the one-pure-child assumption, which estimated dependence graphs often do not",
    "Only reached through two model-fitting tests whose graphs satisfy the assumption; the branch that handles edges outside the pure children's neighbourhoods is never run.",
    [ECC],
    [
        ("find_heuristic_1pc: maximum independent set via max_cliques of the complement", ECC),
        ("uncovered_edges loop", ECC),
    ],
    ["return value of find_heuristic_1pc"],
)
prop(
    "P05",
    "One-pure-child structures are recovered exactly from their dependence graph",
    "For every causal structure in which each latent has a pure child, taking the undirected dependence graph of the structure and running either the one-pure-child heuristic or the exact minimum clique cover search gives back the same structure up to the order of the latents. The dependence graph may be given with any numeric dtype and with or without self loops.",
    I,
    "all biadjacency matrices satisfying the one-pure-child assumption, any number of latents and measurements, any column order",
    "The tests recover two fixed structures with the heuristic and none of the randomly generated ones.",
    [ECC, EV, SA],
    [
        ("find_heuristic_1pc", ECC),
        ("find_clique_min_cover rule 2 on graphs whose cliques have simplicial vertices", ECC),
        ("recover_ug", EV),
    ],
    ["recover_ug followed by find_heuristic_1pc / find_clique_min_cover"],
)
prop(
    "P06",
    "Random one-pure-child structures satisfy their specification",
    "For every number of measurements, density, number of latents and random generator, a randomly generated one-pure-child structure has the requested shape, at least one pure child per latent, at least one parent per measurement, and exactly num_meas + round(density * (num_meas - num_latent) * (num_latent - 1)) edges. If unspecified, the number of latents is between 1 and num_meas - 1, and all of these values, every measurement position of pure children, every latent as a parent of additional children, and additional children without a common latent can occur. The edges beyond one per measurement are spread over the other measurements and over the latents at random, as in a draw without replacement.",
    ["inputs", "configurations"],
    "all valid (num_meas, num_latent, density in [0, 1] or None) and all generator states",
    "Tests look at two corner cases (as many latents as measurements, density zero) with one shared generator.",
    [SA],
    [("biadj with one_pure_child=True", SA)],
    ["return value of medil.sample.biadj"],
)
prop(
    "P07",
    "Random Erdos-Renyi structures induce exactly the requested dependence graph",
    "For every number of measurements, density and random generator, a structure generated without the one-pure-child assumption is a minimum edge clique cover, with no latent without children and no measurement without a latent, of a dependence graph with exactly round(density * n * (n - 1) / 2) edges placed uniformly at random. Requesting a number of latents together with this mode is rejected with a ValueError.",
    ["inputs", "configurations"],
    "all num_meas and density in [0, 1] and all generator states",
    "The test compares the density of the induced graph with itself and only checks that no row is empty.",
    [SA, ECC],
    [("biadj with one_pure_child=False", SA), ("find_clique_min_cover", ECC)],
    ["return value of medil.sample.biadj"],
)
prop(
    "P08",
    "Random Gaussian model parameters match the structure and documented ranges",
    "For every 0/1 or Boolean structure and random generator, a randomly parameterised model keeps the given structure, has nonzero weights exactly on its edges with magnitudes throughout [0.5, 2) and both signs possible, error means with magnitude below 2 and both signs possible, and error variances in [0.5, 2), all drawn independently. If no structure is given, it is generated from the given generator and options; unknown parameterisations raise ValueError and the unimplemented one NotImplementedError.",
    ["inputs", "configurations"],
    "all structures (any shape, Boolean or integer), generator states, generation options",
    "One model with five measurements and the shared default generator is inspected for nonzero entries.",
    [SA, MO],
    [("mcm", SA), ("Parameters / GaussianMCM", MO)],
    ["attributes of the model returned by medil.sample.mcm"],
)
prop(
    "P09",
    "Gaussian model samples follow the specified linear structural equations",
    "For every weight matrix, error means and error variances, sampling from a Gaussian model returns the requested number of independent rows, jointly Gaussian with mean equal to the error means and covariance W'W + diag(error variances). If all error variances are zero, every row minus the error means lies exactly in the row space of W, with independent standard normal latent scores.",
    I,
    "all weight matrices, means, nonnegative variances, sample sizes and generator states",
    "Two tests compare only the means, for zero means and two fixed structures.",
    [MO],
    [("GaussianMCM.sample", MO)],
    ["return value of GaussianMCM.sample"],
)
prop(
    "P10",
    "Gaussian model fitting returns valid least-squares parameters",
    "For every dataset and every given structure, fitting keeps the structure, sets the error means to the sample means, puts zero weight off the structure's edges, and returns nonnegative error variances. Whatever the units, weights and variances together satisfy, up to numerical precision, the first-order optimality conditions for the squared Frobenius distance between W'W + diag(variances) and the sample covariance with nonnegative variances, and fit returns the model itself.",
    I,
    "all datasets (any scale, sample size, correlation structure, Boolean or integer structures), including ones that drive a variance to its boundary",
    "Two fixed models with large samples, where the optimum is interior and close to the starting point.",
    [MO],
    [("GaussianMCM.fit: _objective, bounds, scipy minimize", MO)],
    ["model.parameters after GaussianMCM.fit"],
)
prop(
    "P11",
    "Linear-Gaussian dependence graph estimate is the BIC-optimal edge decision",
    "For every dataset, the dependence graph estimated when fitting a Gaussian model is Boolean, symmetric and loop-free and has an edge exactly between those pairs whose sample correlation r satisfies log(1 - r^2) < -log(N)/N, also for perfectly correlated pairs. It therefore does not change under shifting or (positively or negatively) rescaling any measurement or reordering the rows, and is permuted accordingly when the columns are; a dependence graph or structure given by the user is used as given instead.",
    I,
    "all datasets with at least two non-constant columns, any location and scale",
    "The estimate is compared with the truth for two fixed models whose measurements have variance larger than one.",
    [MO],
    [("GaussianMCM._estimate_udg / _compute_biadj", MO)],
    ["model.udg and model.biadj after GaussianMCM.fit"],
)
prop(
    "P12",
    "Fitting recovers a faithful one-pure-child model from its moments",
    "For every one-pure-child structure with generic weights, fitting a Gaussian model to a dataset whose sample moments are those of the model recovers the dependence graph and the structure up to the order of the latents, and the fitted means and covariance match the data. If the true parameters are identifiable (a single latent with at least three children, or disjoint such groups), the weights are recovered up to sign together with the error variances.",
    I,
    "all one-pure-child structures and generic parameters for which all implied correlations are detectable at the sample size",
    "Two fixed models are recovered from random samples, with tolerances of up to 0.7.",
    [MO, ECC],
    [("GaussianMCM.fit with find_heuristic_1pc and least squares", MO)],
    ["model.udg, model.biadj, model.parameters after GaussianMCM.fit"],
)
prop(
    "P13",
    "Distance covariance matrix equals its definition",
    "For every sample, the distance covariance matrix has in entry (i, j) the mean over all pairs of observations of the product of the doubly centred distances of features i and j, and the accompanying vector holds each feature's mean distance. It is thus symmetric, with nonnegative entries on its diagonal that vanish only for constant features, invariant under shifts, sign changes and row permutations, and scales with the product of the features' scales.",
    I,
    "all finite samples with at least two rows, including ties, constant columns and wildly different scales",
    "No test calls it (the only independence-testing test has an empty body).",
    [IT],
    [("dcov", IT)],
    ["return value of medil.independence_testing.dcov"],
)
prop(
    "P14",
    "Dependence graph estimation thresholds the right test for every pair",
    "For every sample, method and significance level, the estimated graph is Boolean, symmetric and loop-free, and (i, j) is an edge exactly if the pair's independence test rejects at that level: the distance covariance test statistic at least its chi-squared critical value, the distance correlation t-test or xi-correlation p-value (of the pair in column order) below the level, or the supplied p-value below the level. The returned p-value matrix holds each pair's own p-value symmetrically, for any number of features; methods that are unknown or not implemented raise ValueError or NotImplementedError.",
    ["inputs", "configurations", "schedules"],
    "all samples, numbers of features (several work chunks for the process pool), significance levels and methods",
    "The only test has an empty body.",
    [IT],
    [("estimate_UDG", IT), ("process pool over feature pairs", IT)],
    ["return value of medil.independence_testing.estimate_UDG"],
)
prop(
    "P15",
    "Xi correlation and its p-value equal Chatterjee's definition",
    "For every pair of equally long sequences, the xi coefficient and its asymptotic p-value (with and without accounting for ties in y) equal Chatterjee's published formulas, so they only depend on the ranks and are invariant under strictly increasing transformations of x and y and under jointly reordering observations without ties in x. Sequences of different lengths raise ValueError, and empty ones yield NaN.",
    I,
    "all numeric sequences, lists or arrays of any shape, with or without ties in y",
    "No test calls it.",
    [IT],
    [("xicorr / _xicorr", IT)],
    ["return value of medil.independence_testing.xicorr"],
)
prop(
    "P16",
    "Structural distances compare exactly the induced graphs",
    "For every pair of structures over the same measurements, the squared Frobenius distance and structural Hamming distance are those between their weighted and unweighted dependence graphs, counting each unordered pair once for the latter. They are therefore zero between a structure and any reordering of its latents, symmetric in their arguments, invariant under a joint reordering of the measurements, satisfy the triangle inequality (after taking the root of the former), and do not depend on the structures' dtype.",
    I,
    "all pairs and triples of biadjacency matrices over the same measurements, with different numbers of latents, Boolean or integer",
    "Three fixed pairs of matrices are compared with expected numbers.",
    [EV],
    [("sfd, recover_ug", EV)],
    ["return values of medil.evaluate.sfd and recover_ug"],
)
prop(
    "P17",
    "Permutation distances find the optimal matching of latents",
    "For every predicted weight matrix and true weight matrix with at most as many rows, the minimum permutation distance is the smallest squared distance over all assignments of predicted rows to the true rows padded with zero rows, and the returned permutation attains it; the absolute variant does the same for magnitudes and thus ignores signs. Both are invariant under reordering either matrix's rows, zero exactly for matching matrices, and independent of dtype.",
    I,
    "all pairs of weight matrices, with equal or different numbers of latents, float, integer or Boolean",
    "No test calls them.",
    [EV],
    [("min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs", EV)],
    ["return values of both functions"],
)
prop(
    "P18",
    "Neural model training is determined by data, seed and hyperparameters",
    "For every dataset, two neural models constructed and fitted with the same seed, hyperparameters and data split have identical weights and losses, whatever ran in the process or was fitted with the same model before, and different seeds give different ones. The fit does not depend on the units of the measurements, with the default as with an explicit split; with an explicit split, the trained weights do not depend on which validation observations are chosen.",
    ["inputs", "configurations", "histories"],
    "all datasets, seeds, hyperparameters, splits and earlier use of the random number generators",
    "One training run on one dataset, of which nothing is asserted.",
    [MO, VA],
    [("NeuroCausalFactorAnalysis.fit: seeding, standardisation, split", MO)],
    ["model.parameters, model.loss after NeuroCausalFactorAnalysis.fit"],
)
prop(
    "P19",
    "Neural decoder keeps measurements' mechanisms separate and fully trainable",
    "For every number of latents, measurements, hidden layers and width, each decoder output (mean and log-variance) depends on the latents only through its own measurement's units, so that zeroing a measurement's first-layer weights from a latent removes all influence of that latent on that measurement and changes no other measurement, before and after training. All layers of the decoder are part of the model's parameters and saved state, and training changes them.",
    ["inputs", "configurations"],
    "all architectures, weights, latent inputs, and training lengths",
    "One training run with the default architecture, of which nothing is asserted.",
    [VA, MO],
    [("SparseLinear masks", VA), ("Decoder layers", VA)],
    ["decoder outputs, parameters() and state_dict() of VariationalAutoencoder"],
)
prop(
    "P20",
    "Neural model training artefacts are complete, contained and reloadable",
    "For every output path, with or without trailing slash, a fit writes the model, the losses, the reconstruction errors and the training log inside that directory and nothing outside of it. The reloaded model gives the same outputs as the fitted one, the reloaded losses and errors equal those in memory with one entry per epoch for training and validation, and the log contains the loss of every epoch.",
    ["inputs", "configurations"],
    "all output paths, datasets, numbers of epochs and batch sizes, repeated fits",
    "The test only fits with the default path and reads nothing back.",
    [MO],
    [("NeuroCausalFactorAnalysis.log / fit", MO)],
    ["files below the output path; model.loss; model.parameters"],
)
prop(
    "P21",
    "Neural training objective is the penalised ELBO, sampled only in training",
    "For every dataset and hyperparameters, the recorded validation loss and error of the last epoch are those of the returned model on the validation observations, per observation and averaged over batches; losses contain the (nonnegative) KL divergence times beta, and the training loss, which the optimiser descends, additionally the nuclear and L1 norms of the first decoder layer's covariance weights times lambda and mu. Every training pass draws new latent noise with the encoder's variances, no validation pass or later use of the fitted model does.",
    ["inputs", "configurations", "histories"],
    "all datasets, batch sizes, architectures, epochs and regularisation parameters",
    "One training run on one dataset, of which nothing is asserted.",
    [MO, VA],
    [
        ("_elbo_gaussian, _recon_error, _train_vae, _valid_vae", MO),
        ("VariationalAutoencoder.latent_sample", VA),
    ],
    ["model.loss and model.parameters.vae after fitting; modules' train/eval mode"],
)
prop(
    "P22",
    "Penalised estimators report, return and sample the optimum of their objective",
    "For every dataset, penalties and generator state, the estimates returned by the penalised maximum-likelihood and least-squares fits have the requested dimensions and a diagonal, nonnegative error covariance, and the reported optimum, like the validation value on the same data, equals the documented objective at exactly these estimates. Without penalties the fitted covariance reproduces the sample covariance; after fitting, sampling follows the estimated model, and before fitting or with an unknown method it raises ValueError.",
    ["inputs", "configurations"],
    "all datasets, penalty weights, both methods, with and without the one-pure-child assumption",
    "No test uses this estimator.",
    [MO],
    [("DevMedil.fit_penalized_mle / fit_penalized_lse / validation_* / sample", MO)],
    ["attributes, validation values and samples of DevMedil"],
)
prop(
    "P23",
    "Arguments and model state are never modified by computations",
    "For every input, cover search, heuristics, clique enumeration, dependence graph estimation, evaluation, structure and model generation, fitting and sampling leave the arrays passed to them, the dataset and the parameters of the model being sampled unchanged. Calling them a second time with the same arguments therefore gives the same result.",
    ["inputs", "histories"],
    "all public computations and their inputs, including cases that return early",
    "No test compares arguments before and after a call.",
    [ECC, GR, IT, EV, SA, MO],
    [("copies made at function entry", ECC)],
    ["the arguments after each call"],
)
prop(
    "P24",
    "Graph bookkeeping stays consistent under any sequence of reductions",
    "For every graph and sequence of edge additions, removals, coverings and reductions, the adjacency matrix stays symmetric, the edge and vertex counts match it, the auxiliary structure holds each uncovered edge's common neighbourhood and the number of edges inside it in the graph of not yet removed vertices, and the uncovered edges listed are those of the adjacency matrix. Any clique cover of the edges left uncovered after the reductions, completed by undoing the reductions, covers the original graph with cliques, also after copying or resetting the graph.",
    ["inputs", "histories"],
    "all graphs and operation sequences",
    "The reduction rules are each tested on one fixed graph, in at most two steps.",
    [GR],
    [
        ("UndirectedDependenceGraph.make_aux, add_edges, rm_edges", GR),
        ("ReducibleUndDepGraph.rule_1, rule_2, rule_3, cover_edges, reconstruct_cover", GR),
    ],
    ["attributes of both graph classes after each operation"],
)
prop(
    "P25",
    "Graph export and visualisation represent the given structure faithfully",
    "For every structure, the directed graph has edges exactly from latents to their children, its drawing has one labelled node per variable and one arrow per edge, and the drawn dependence matrix is that of the structure. For every graph, the exported text file lists the number of vertices, each vertex's degree and each edge, so that the graph can be read back; matrices and pairwise plots are drawn for every valid input without error.",
    I,
    "all structures, graphs, dependence matrices and samples",
    "No test imports the visualisation module or exports a graph.",
    [VI, GR],
    [("get_dag_from_biadj, show_*", VI), ("convert_to_nde", GR)],
    ["return values, matplotlib figures and the exported file"],
)
prop(
    "P26",
    "Seeded results do not depend on earlier or interleaved calls",
    "For every history of calls, generating structures and models with a given random generator, sampling from a model with its own generator, and fitting give the same result as the same call made alone in a fresh process state with the same generator state. Models given different generators are independent of each other, and successive samples from one model differ.",
    ["histories", "inputs"],
    "all interleavings of generation, sampling and fitting calls on several models",
    "The tests share one default generator between all models and never repeat a call.",
    [SA, MO],
    [("rng arguments of mcm, biadj and the model classes", SA)],
    ["results of interleaved and isolated calls"],
)

prop(
    "P27",
    "Models and results never share state",
    "For every history of constructing, configuring, fitting and sampling several models, an operation on one model changes no other model's structure, dependence graph, parameters, hyperparameters, losses, dataset or own generator, and every new model starts from the same defaults. Arrays returned to the caller belong to the caller: overwriting them changes neither a model nor any later result.",
    ["histories", "inputs"],
    "all sequences of operations on any number of Gaussian, random, neural and penalised models, with or without given arguments, and of changes the caller makes to returned arrays",
    "The tests construct one model each and never look at a second one; shared default objects, class attributes and cached results only show in particular sequences.",
    [MO, SA, ECC, IT, EV],
    [
        ("default arguments, hyperparams and Parameters of the model classes", MO),
        ("mcm and biadj return fresh objects", SA),
    ],
    ["attributes of all models before and after each operation", "returned arrays"],
)
prop(
    "P28",
    "Neural training uses exactly its split's standardised observations",
    "For every dataset, in every epoch of a neural model's training each training observation is used exactly once and each validation observation exactly once, in batches of at most the batch size, and each measurement is standardised to zero mean and unit variance over the whole dataset. With an explicit split (of any index type) these are exactly the observations given; without one, 70 % of the dataset, chosen at random by the seed, are used for training and all others for validation.",
    ["inputs", "configurations"],
    "all datasets (any units, dtype, layout, size), seeds, batch sizes, numbers of epochs, and splits given as lists, index arrays, masks or slices, also partial, overlapping or with repetitions",
    "The tests fit one dataset and look at the artefacts' existence; lost, repeated or swapped observations change losses only slightly.",
    [MO],
    [
        ("NeuroCausalFactorAnalysis.fit: standardisation and split", MO),
        ("_data_loader, _train_vae, _valid_vae", MO),
    ],
    ["inputs of the network during the fit"],
)
prop(
    "P29",
    "Structure learning recovers the generating structure from samples",
    "For every one-pure-child structure whose dependent pairs of measurements are clearly correlated, sampling sufficiently many observations from its Gaussian model, estimating their dependence graph with any of the methods at a strict level, and running the one-pure-child heuristic or the exact search leads back to the structure, at structural distances of zero. This also holds if the measurements are changed by units, reflections or other strictly monotone functions. A neural model's own structure learning gives the same as these steps with its hyperparameters' method and level, or with its given dependence graph.",
    ["inputs", "configurations"],
    "all one-pure-child structures with detectable dependencies, weights, variances, monotone measurement functions, methods and searches",
    "No test connects sampling, testing, searching and evaluation; each part may satisfy its test although their conventions (orientation, diagonals, order of features) don't fit together.",
    [SA, IT, ECC, EV, MO],
    [
        ("GaussianMCM.sample", MO),
        ("estimate_UDG", IT),
        ("find_heuristic_1pc, find_clique_min_cover", ECC),
        ("sfd, recover_ug", EV),
    ],
    ["the structure learnt from a model's sample"],
)
prop(
    "P30",
    "Results do not depend on how inputs are represented or on verbosity",
    "For every computation on graphs, structures, weights or datasets (cover search, heuristic, clique enumeration, model generation, fitting, dependence tests, structural and permutation distances, directed graph), giving the same values with another numeric dtype or byte order, in another memory layout, or as a read-only or non-contiguous view gives the same result up to rounding, and so does verbose output.",
    ["inputs", "configurations"],
    "all inputs and all dtypes (Boolean, signed and unsigned integers of any width, floats, big-endian) that hold their values exactly, memory layouts and verbosity settings",
    "The tests use one representation per function; overflow of small integers, Boolean arithmetic and assumptions on memory layout need particular values in particular dtypes.",
    [ECC, GR, IT, MO, EV, SA, VI],
    [
        ("conversions of graphs and structures", ECC),
        ("tests per pair of features", IT),
        ("products of structures", EV),
    ],
    ["results for equal values in different representations"],
)

prop(
    "P31",
    "Concurrent computations do not affect each other",
    "For every set of computations (cover search, heuristic, clique enumeration, reductions, structural and permutation distances, dependence tests, structure and model generation, fitting and sampling of Gaussian and penalised models, evaluation of networks) run at the same time in several threads of a process, each with its own models and random generators but possibly with the same input arrays, every result equals that of the same computation run alone, under every schedule. Training neural models, which seeds the process-wide generators, is excepted.",
    ["schedules", "inputs"],
    "all combinations of computations in any number of threads and all interleavings of their steps, also with shared arguments",
    "The tests run one computation at a time; module-level buffers, state kept on classes and arguments changed temporarily only show when another thread runs in between.",
    [ECC, GR, IT, EV, SA, MO, VA],
    [
        ("search state is kept in local variables and instances", ECC),
        ("auxiliary structures of graphs", GR),
        ("objectives of the estimators are closures", MO),
    ],
    ["results of computations run concurrently and alone"],
)
prop(
    "P32",
    "Results depend on nothing but the arguments, and nothing else is changed",
    "For every computation and every process, whatever its hash seed, optimisation flags, encoding, time zone, order of imports and current directory, the states of the global random generators, the floating-point error handling (other than raising), print options, warning filters and plot settings, the result is the same. Conversely, computations leave all of these, open files, threads, child processes and the file system as they found them, except for the generators passed to them, the global generators of numpy and torch in neural models, the figures drawn, and the files documented.",
    ["configurations", "histories"],
    "all computations in all process environments and all states of process-wide settings",
    "The tests run in one process with default settings and never look at anything but return values.",
    [ECC, GR, IT, EV, SA, MO, VA, VI],
    [
        ("generators are passed explicitly", SA),
        ("NeuroCausalFactorAnalysis.fit seeds the global generators", MO),
        ("estimate_UDG's process pool", IT),
    ],
    ["results in other processes and under other settings", "process-wide settings before and after"],
)

prop(
    "P33",
    "Interrupted computations leave nothing behind and can be repeated",
    "For every computation that is interrupted by an exception (keyboard interrupt or lack of memory) at any point outside of clean-up code, the exception reaches the caller, and the arguments, process-wide settings and child processes are as before. Every later computation, including its repetition with the generator's state restored, gives the same result as if it had never been started. This also holds for fitting and sampling with the same model, and for a neural model's fit that is interrupted or whose process is killed, with the same model or a new one and the same output path, whose files then are those of the complete fit.",
    ["crash points", "inputs", "histories"],
    "all computations interrupted at any line they execute, any number of times, followed by any others",
    "The tests let every call run to its end; half-filled caches, arguments and settings changed temporarily, and leftovers of partial files only matter when it doesn't.",
    [ECC, GR, IT, EV, SA, MO, VA, VI],
    [
        ("models are updated after the optimisation or training", MO),
        ("NeuroCausalFactorAnalysis.fit writes its files from scratch", MO),
        ("graphs are copied before being reduced", ECC),
    ],
    ["the exception", "arguments and settings after it", "results of repetitions and later computations", "files of the repeated fit"],
)
prop(
    "P34",
    "Models and graphs can be copied, saved and restored at any time",
    "For every history of fitting, sampling, configuring, editing, reducing or training, replacing a model (Gaussian, penalised or neural), network or graph at any time by a deep copy, or a model or network by one that was pickled or saved with torch and restored in the same or another process, changes no later result or state: its generator, parameters, estimates, hyperparameters, losses and structures continue exactly where they were. Original and copy are independent of each other, and copying does not change the original.",
    ["histories", "inputs"],
    "all objects in all states that can be reached by any history, copied or restored any number of times",
    "The tests never copy or pickle a model; state that is kept elsewhere, left out when saving or shared between copies shows only in what is done with them afterwards.",
    [MO, GR, VA, SA],
    [
        ("attributes of the models", MO),
        ("Parameters", MO),
        ("ReducibleUndDepGraph's attributes", GR),
        ("masks and layers of the network", VA),
    ],
    ["results and states after copying or restoring"],
)
prop(
    "P35",
    "Results reflect the current contents of arguments and models",
    "For every computation and every history of calls in a process, a result is that of the arguments' values at the time of the call: changing arrays in place between calls, freeing them and allocating others, or giving different arrays that agree in shape, sums or parts never leads to an earlier call's result. Likewise models and networks kept between calls use the current values of the dataset given, of their structure, parameters, hyperparameters, generator and weights.",
    ["histories", "inputs"],
    "all computations on all arrays, changed in any way between any number of calls",
    "The tests use every array once; anything remembered from an earlier call (by identity, address or a summary of the contents) only shows when an array or model is used again with other contents.",
    [ECC, GR, IT, EV, SA, MO, VA, VI],
    [
        ("functions without state between calls", ECC),
        ("dataset and parameters of models", MO),
        ("SparseLinear.forward", VA),
    ],
    ["results of calls after changes"],
)

prop(
    "P36",
    "Rejected calls raise the documented exception and have no effects",
    "For every call that the code rejects - estimating a dependence graph with an unknown method (ValueError) or the g-test (NotImplementedError), xi-correlation of sequences of different sizes, a number of latents for structures without the one-pure-child assumption, fitting or sampling a penalised model with an unknown method, sampling it by a method with which it has not been fitted (ValueError), generating models of an unknown (ValueError) or the VAE parameterization (NotImplementedError), and fitting or sampling the base class or sampling a neural model (NotImplementedError) - exactly this kind of exception is raised, whatever the other arguments and as often as the call is made. Models, arguments, global generators and a model's own generator, files, processes and settings are as before, and every later call gives the same result as if the rejected one had never been made.",
    ["inputs", "histories"],
    "all wrong names, sizes and options, at any point of any history of a model, graph or network",
    "Two tests check that an exception is raised for one wrong method; none looks at what was changed before it was raised, or at near-miss names.",
    [IT, SA, MO],
    [
        ("estimate_UDG and xicorr", IT),
        ("biadj and mcm", SA),
        ("DevMedil.fit and sample, MedilCausalModel", MO),
    ],
    ["the exception", "models, arguments, generators, settings before and after", "later results"],
)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
