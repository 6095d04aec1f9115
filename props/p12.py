"""P12: fitting recovers a faithful one-pure-child model from its moments."""
import numpy as np

from medil.models import GaussianMCM
from vlib import gen, ref
from vlib.core import Sub

RULE = (
    "one-pure-child structures (up to 8 measurements, 4 latents, some up to 16 measurements, 12 latents; half of them disjoint groups of at "
    "least 3), 200 to 50000 observations, weights and variances from the documented ranges (if not identifiable, also smaller ones) with random signs, datasets whose sample mean and covariance "
    "are exactly the model's (whitened and coloured normal, heavy-tailed or skewed noise), common units 1e-3 to 1e3; models with dependent "
    "pairs correlated less than 1.2 times the threshold are replaced; non-trivial: at least 2 latents or a latent with 3 children"
)
ASSUMPTIONS = [
    "dependent pairs have correlations of at least 1.2 sqrt(log(N) / N), which is detectable with N observations",
]


def dataset_of(case, weights, variances, means):
    rng = np.random.default_rng(case["seed"])
    d = weights.shape[1]
    z = rng.standard_normal((case["n"], d))
    if case["noise"] == "heavy":
        z = z / np.abs(rng.standard_normal((case["n"], 1))).clip(0.3)
    elif case["noise"] == "skew":
        z = np.exp(z)
    z = z - z.mean(0)
    z = z @ np.linalg.inv(np.linalg.cholesky(np.cov(z, rowvar=False))).T
    cov = weights.T @ weights + np.diag(variances)
    return (z @ np.linalg.cholesky(cov).T + means) * case["unit"], cov


def check(case):
    weights, variances = np.array(case["weights"]), np.array(case["variances"])
    means = np.array(case["means"])
    truth = weights != 0
    x, cov = dataset_of(case, weights, variances, means)
    unit = case["unit"]
    if case["given"] == "graph":
        model = GaussianMCM(udg=ref.dependence_graph(truth))
    elif case["given"] == "structure":
        model = GaussianMCM(biadj=truth)
    else:
        model = GaussianMCM()
    model.fit(x)
    biadj = np.asarray(model.biadj)
    if case["given"] != "structure":
        assert (np.asarray(model.udg) == ref.dependence_graph(truth)).all(), "dependence graph"
    assert ref.rows_as_sets(biadj) == ref.rows_as_sets(truth), "structure"
    p = model.parameters
    got_w, got_v = p.biadj_weights / unit, p.error_variances / unit**2
    assert np.allclose(p.error_means / unit, means, atol=1e-6), "means"
    implied = got_w.T @ got_w + np.diag(got_v)
    assert np.allclose(implied, cov, atol=0.02, rtol=0.01), (
        f"covariance {implied.round(3).tolist()} instead of {cov.round(3).tolist()}"
    )
    if case["identifiable"]:
        order = [int(np.flatnonzero((biadj == row).all(1))[0]) for row in truth]
        got = got_w[order]
        sign = np.sign((got * weights).sum(1, keepdims=True))
        assert np.allclose(got * sign, weights, atol=0.05), (
            f"weights {got.round(3).tolist()} instead of {weights.round(3).tolist()}"
        )
        assert np.allclose(got_v, variances, atol=0.1), (
            f"variances {got_v.round(3).tolist()} instead of {variances.round(3).tolist()}"
        )
    labels = [f"{len(truth)} latents", "given " + case["given"], case["noise"]]
    labels.append("identifiable" if case["identifiable"] else "not identifiable")
    return len(truth) >= 2 or truth.sum() >= 3, labels


def spec(rng):
    identifiable = bool(rng.integers(2))
    top = 8 if rng.random() < 0.9 else 16
    n = gen.pick(rng, (200, 500, 2000, 4000, 4000, 20000, 50000))
    detectable = 1.2 * np.sqrt(np.log(n) / n)
    low = 0.5 if identifiable or rng.random() < 0.4 else float(rng.uniform(0.1, 0.4))
    while True:
        d = gen.between(rng, 3 if identifiable else 2, top)
        if identifiable:
            k = gen.between(rng, 1, d // 3)
            part = rng.permutation(np.arange(d) % k)
            biadj = np.arange(k)[:, None] == part
        else:
            biadj = np.array(gen.make_structure(rng, max_latent=4 if top == 8 else 12, max_meas=d, min_meas=d), bool)
        weights = rng.uniform(low, 2 if low == 0.5 else 2 * low, biadj.shape) * rng.choice([-1, 1], biadj.shape) * biadj
        variances = rng.uniform(0.5, 2, d)
        cov = weights.T @ weights + np.diag(variances)
        sd = np.sqrt(np.diag(cov))
        if (np.abs(cov / np.outer(sd, sd))[ref.dependence_graph(biadj)] >= detectable).all():
            break
    return {
        "weights": weights.tolist(),
        "variances": variances.tolist(),
        "means": rng.uniform(-2, 2, d).tolist(),
        "identifiable": identifiable,
        "n": n,
        "noise": gen.pick(rng, ("normal", "heavy", "skew")),
        "seed": int(rng.integers(2**32)),
        "unit": float(10.0 ** rng.uniform(-3, 3)) if rng.random() < 0.5 else 1.0,
        "given": gen.pick(rng, ("nothing", "nothing", "graph", "structure")),
    }


SUBS = [Sub("recovery", gen.seeded(spec), check, 900, 40000)]
