"""P29: structure learning recovers the generating structure from samples."""
import numpy as np

from medil.ecc_algorithms import find_clique_min_cover, find_heuristic_1pc
from medil.evaluate import recover_ug, sfd
from medil.independence_testing import estimate_UDG
from medil.models import GaussianMCM, NeuroCausalFactorAnalysis
from vlib import gen, ncfa, ref
from vlib.core import Sub

RULE = (
    "one-pure-child structures with up to 7 measurements and 4 latents; linear Gaussian models whose dependent pairs are correlated by at least 0.45, sampled with the model's own sample method "
    "(2000 to 8000 rows), measured in other units or through strictly monotone functions; dependence graph by each method at a strict level (data-driven or through the neural model's hyperparameters), "
    "structure by both searches, judged with the repository's distances and independently; neural models' structure learning with any method, level and data compared with the separate steps; non-trivial: at least 2 latents and some dependent pair"
)
ASSUMPTIONS = [
    "levels of 1e-8 (1e-300 for the t-test of distance correlation, whose null distribution has much heavier tails) make false edges negligible, and minimum correlations and sample sizes leave dependent pairs at least 6 standard errors beyond the threshold",
]

METHODS = ("dcov_fast", "dcov_big", "xicor")


def measured(x, how):
    """Strictly monotone measurement functions, column by column."""
    x = x.copy()
    for j, name in enumerate(how):
        z = x[:, j]
        if name == "units":
            x[:, j] = 1e3 * z - 7
        elif name == "reversed":
            x[:, j] = -0.01 * z
        elif name == "tanh":
            x[:, j] = np.tanh(z / z.std())
        elif name == "cubic":
            x[:, j] = z + z**3 / (3 * z.var())
        elif name == "exp":
            x[:, j] = np.exp(z / (2 * z.std()))
    return x


def check(case):
    weights = np.array(case["weights"])
    truth = weights != 0
    graph = ref.dependence_graph(truth)
    model = GaussianMCM(biadj=truth, rng=np.random.default_rng(case["seed"]))
    model.parameters.biadj_weights = weights
    model.parameters.error_means = np.array(case["means"])
    model.parameters.error_variances = np.array(case["variances"])
    x = measured(model.sample(case["n"]), case["measured"])
    assert x.shape == (case["n"], truth.shape[1])
    method = case["method"]
    # the t-test of distance correlation isn't calibrated for single features:
    # its statistic is a weighted sum of centred chi-squared variables
    level = 1e-300 if method == "dcov_big" else 1e-8
    udg, _ = estimate_UDG(x, method=method, significance_level=level)
    offdiag = lambda a: np.asarray(a, bool) & ~np.eye(len(graph), dtype=bool)
    assert (offdiag(udg) == graph).all(), (
        f"dependence graph: {np.argwhere(np.triu(offdiag(udg) != graph)).tolist()} are wrong"
    )
    for search in (find_clique_min_cover, find_heuristic_1pc):
        biadj = np.asarray(search(np.array(udg))).astype(bool)
        assert ref.rows_as_sets(biadj) == ref.rows_as_sets(truth), f"structure found by {search.__name__}"
        assert tuple(map(float, sfd(biadj, truth))) == (0, 0), "the structures' distance isn't zero"
        assert (offdiag(recover_ug(biadj)) == graph).all()
    if case["neural"]:
        with ncfa.scratch():
            neural = NeuroCausalFactorAnalysis(path="m/")
        neural.hyperparams.update(method=method, alpha=level)
        neural.dataset = x
        if hasattr(neural, "_compute_biadj"):
            neural._compute_biadj()
            assert (offdiag(neural.udg) == graph).all(), "the neural model's dependence graph"
            assert ref.rows_as_sets(neural.biadj) == ref.rows_as_sets(truth), "the neural model's structure"
    # the learned structure can be given to a model and describes the data
    fitted = GaussianMCM(biadj=find_heuristic_1pc(np.array(udg)))
    z = (x - x.mean(0)) / x.std(0)
    fitted.fit(z)
    p = fitted.parameters
    implied = p.biadj_weights.T @ p.biadj_weights
    assert not implied[~graph & ~np.eye(len(graph), dtype=bool)].any(), "independent measurements are correlated"
    return len(truth) >= 2 and graph.any(), [method, f"{len(truth)} latents"]


def neural(case):
    """A neural model's structure learning follows its hyperparameters."""
    rng = np.random.default_rng(case["seed"])
    x = rng.standard_normal((case["n"], case["d"]))
    for j in range(1, case["d"]):
        x[:, j] += rng.uniform(0, 1.2) * (x[:, 0] if rng.random() < 0.7 else x[:, j - 1] ** 2)
    with ncfa.scratch():
        model = NeuroCausalFactorAnalysis(path="m/")
        if case["given"]:
            model.udg = ref.dependence_graph(rng.random((2, case["d"])) < 0.6)
    if not hasattr(model, "_compute_biadj"):
        return False, ["no structure learning"]
    model.hyperparams.update(method=case["method"], alpha=case["alpha"])
    model.dataset = x
    expected, _ = estimate_UDG(x.copy(), method=case["method"], significance_level=case["alpha"])
    if case["given"]:
        expected = model.udg.copy()
    model._compute_biadj()
    assert np.array_equal(np.asarray(model.udg, bool), expected), "the neural model's dependence graph"
    covered = np.asarray(model.biadj).astype(int)
    assert np.array_equal(covered, find_heuristic_1pc(expected).astype(int)), "the neural model's structure"
    return bool(expected.any()), [case["method"], "given" if case["given"] else "estimated"]


def neural_spec(rng):
    return {
        "n": gen.between(rng, 20, 150),
        "d": gen.between(rng, 2, 6),
        "method": gen.pick(rng, METHODS),
        "alpha": gen.pick(rng, (0.05, 0.01, 1e-3, 1e-5, 0.3, 0.8)),
        "given": rng.random() < 0.2,
        "seed": int(rng.integers(2**31)),
    }


def spec(rng):
    method = gen.pick(rng, METHODS)
    low = 0.45
    varied = rng.random() < 0.9
    while True:
        d = gen.between(rng, 3 if varied else 2, 7)
        biadj = np.array(gen.make_structure(rng, max_latent=4, max_meas=d, min_meas=d), bool)
        if varied and (len(biadj) == 1 or len(biadj) == d):
            continue
        weights = rng.uniform(0.5, 2, biadj.shape) * biadj
        if rng.random() < 0.5:
            weights = weights * rng.choice([-1, 1], biadj.shape)
        variances = rng.uniform(0.1, 1, d)
        cov = weights.T @ weights + np.diag(variances)
        sd = np.sqrt(np.diag(cov))
        if (np.abs(cov / np.outer(sd, sd))[ref.dependence_graph(biadj)] >= low).all():
            break
    kinds = ("as is", "as is", "units", "reversed", "tanh", "cubic", "exp")
    return {
        "weights": weights.tolist(),
        "variances": variances.tolist(),
        "means": rng.uniform(-2, 2, d).tolist(),
        "n": gen.pick(rng, (5000, 8000)) if method == "xicor" else 2000,
        "measured": [gen.pick(rng, kinds) for _ in range(d)],
        "method": method,
        "neural": bool(rng.integers(2)),
        "seed": int(rng.integers(2**31)),
    }


SUBS = [
    Sub("recovery", gen.seeded(spec), check, 240, 10000, shrink=False),
    Sub("neural", gen.seeded(neural_spec), neural, 180, 6000, shrink=False),
]
