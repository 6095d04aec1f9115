"""P09: Gaussian model samples follow the specified linear structural equations."""
import numpy as np

from medil.models import GaussianMCM
from medil.sample import mcm
from vlib import gen
from vlib.core import Sub

RULE = (
    "weight matrices up to 5 x 6, some 40 x 40 (any 0/1 support, several magnitudes, or from medil.sample.mcm), means and "
    "nonnegative variances over several magnitudes incl. zeros, numeric types, generator states, sample sizes; first four moments, serial "
    "independence and one-dimensional marginals of 20000 rows with bounds at 7.5 standard errors "
    "(false alarm probability < 1e-12 per statistic); exact row-space check without noise; histories of fitting, setting and changing parameters and sampling; non-trivial: at least one "
    "weight and 2 measurements (shape: always)"
)
ASSUMPTIONS = ["samples are judged by moments and marginal distributions, not by all of their law"]
Z = 7.5
SIZE = 20000


def model_of(case):
    values = [np.array(case[k], float) for k in ("weights", "means", "variances")]
    dtype = case.get("dtype", "float64")
    if dtype == "whole":  # whole numbers, given as integers
        values = [np.rint(v * (100 / np.abs(v).max() if v.any() else 1)) for v in values]
        dtype = "int64"
    weights, means, variances = (v.astype(dtype) for v in values)
    model = GaussianMCM(biadj=weights != 0, rng=np.random.default_rng(case["seed"]))
    p = model.parameters
    p.biadj_weights, p.error_means, p.error_variances = weights, means, variances
    return model


def moments(x, mean, cov):
    n, d = x.shape
    var = np.diag(cov)
    dev = x - mean
    tiny = 1e-7 * (np.abs(mean).max() + np.sqrt(var.max()) + 1e-300)
    err = np.abs(dev.mean(0))
    assert (err <= Z * np.sqrt(var / n) + tiny).all(), f"means off by {err}"
    got = dev.T @ dev / n
    se = np.sqrt((np.outer(var, var) + cov**2) / n)
    bad = np.abs(got - cov) > Z * se + tiny * np.sqrt(var.max()) + tiny**2
    assert not bad.any(), f"covariance {got.tolist()} instead of {cov.tolist()}"


def standard(z, what):
    """Rows of independent standard normal variables?"""
    n, d = z.shape
    se = 1 / np.sqrt(n)
    moments(z, np.zeros(d), np.eye(d))
    assert (np.abs((z**3).mean(0)) < Z * np.sqrt(15) * se).all(), f"{what} are skewed"
    assert (np.abs((z**4).mean(0) - 3) < Z * np.sqrt(96) * se).all(), f"{what}' kurtosis"
    for lag in (1, 2):
        serial = z[:-lag].T @ z[lag:] / (n - lag)
        assert (np.abs(serial) < Z * se).all(), f"successive {what} are dependent"
    # dependence between rows at any distance, or mirrored around any row
    spectrum = np.fft.rfft(z, axis=0)
    for a in range(d):
        for b in range(d):
            shifted = np.fft.irfft(spectrum[:, a] * spectrum[:, b].conj(), n) / n
            # mirrored pairs count twice, and a row can be its own mirror image
            mirrored = np.fft.irfft(spectrum[:, a] * spectrum[:, b], n) / n
            worst = np.abs(shifted[1:]).max()
            assert worst < (Z + 1) * se, f"{what} a fixed distance apart are dependent ({worst})"
            worst = np.abs(mirrored).max()
            assert worst < (Z + 1) * 1.5 * se + 50 / n, f"mirrored {what} are dependent ({worst})"
    from scipy.stats import norm

    u = np.sort(norm.cdf(z), axis=0)
    grid = np.arange(1, n + 1)[:, None] / n
    dist = np.maximum(np.abs(u - grid), np.abs(u - grid + 1 / n)).max()
    assert dist < 4.0 * se, f"{what} aren't normal (Kolmogorov distance {dist})"


def check(case):
    model = model_of(case)
    params = model.parameters
    weights, means, variances = (
        params.biadj_weights.astype(float), params.error_means.astype(float), params.error_variances.astype(float)
    )
    x = np.asarray(model.sample(SIZE))
    assert x.shape == (SIZE, weights.shape[1]), f"shape {x.shape}"
    cov = weights.T @ weights + np.diag(variances)
    moments(x, means, cov)
    # whiten (only directions in which there is variance)
    scale = np.sqrt(np.where(np.diag(cov) > 0, np.diag(cov), np.inf))
    vals, vecs = np.linalg.eigh(cov / np.outer(scale, scale))
    keep = vals > 1e-6
    if keep.any():
        white = ((x - means) / scale) @ vecs[:, keep] / np.sqrt(vals[keep])
        standard(white[:, :6], "whitened rows")
    labels = []
    if (variances == 0).any():
        labels.append("some variances are zero")
    if (means != 0).all():
        labels.append("nonzero means")
    return weights.shape[1] >= 2 and weights.any().item(), labels


def noiseless(case):
    model = model_of(case)
    weights, means = model.parameters.biadj_weights.astype(float), model.parameters.error_means.astype(float)
    x = np.asarray(model.sample(SIZE)) - means
    size = np.abs(weights).max() + np.abs(means).max() * 1e-7
    _, sing, rows = np.linalg.svd(weights)
    rank = int((sing > 1e-9 * sing.max()).sum()) if weights.any() else 0
    outside = x - (x @ rows[:rank].T) @ rows[:rank]
    assert np.abs(outside).max() <= 1e-5 * size, "rows outside of the weights' row space"
    if rank == len(weights) and rank:
        scores = x @ np.linalg.pinv(weights)
        standard(scores[:, :6], "latent scores")
    return rank >= 1, ["full rank" if rank == len(weights) else "rank deficient"]


def shape(case):
    model = model_of(case)
    rows = []
    for size in case["sizes"]:
        x = np.asarray(model.sample(size))
        assert x.shape == (size, len(case["means"])), f"shape {x.shape} for size {size}"
        assert np.isfinite(x).all()
        rows.append(x)
    if model.parameters.error_variances.any():
        stacked = np.vstack(rows)
        live = stacked[:, model.parameters.error_variances > 0]
        assert len(np.unique(live, axis=0)) == len(live), "repeated rows"
    return True, []


def large(case):
    """Samples of many rows, in one or several calls."""
    model = model_of(case)
    p = model.parameters
    cov = p.biadj_weights.T @ p.biadj_weights + np.diag(p.error_variances)
    mean = p.error_means.copy()
    x = np.vstack([model.sample(size) for size in case["sizes"]])
    assert x.shape == (sum(case["sizes"]), len(mean)), f"shape {x.shape}"
    assert len(np.unique(x[:, 0])) == len(x), "repeated rows"
    moments(x, mean, cov)
    standard((x - mean) @ np.linalg.inv(np.linalg.cholesky(cov)).T, "whitened rows")
    return True, [f"{max(case['sizes']) // 100000}00000 rows"]


def generated(case):
    model = mcm(
        rng=np.random.default_rng(case["seed"]), num_meas=case["num_meas"], density=case["density"]
    )
    p = model.parameters
    cov = p.biadj_weights.T @ p.biadj_weights + np.diag(p.error_variances)
    mean = p.error_means.copy()
    x = np.vstack([model.sample(SIZE // 2), model.sample(SIZE // 2)])
    moments(x, mean, cov)
    white = (x - mean) @ np.linalg.inv(np.linalg.cholesky(cov)).T
    standard(white, "whitened rows")
    return True, [f"{min(len(model.biadj), 4)} latents"]


def history(case):
    """The parameters at the time of sampling count, fitted or set, however they came about."""
    d = len(case["biadj"][0])
    structure = np.array(case["biadj"], bool)
    model = GaussianMCM(biadj=structure.copy(), rng=np.random.default_rng(case["seed"]))
    p = model.parameters
    ready, labels = False, []
    for op, number in case["ops"]:
        rng = np.random.default_rng(number)
        if op == "fit":
            size = int(rng.integers(20, 200))
            x = rng.normal(size=(size, structure.shape[0])) @ (rng.normal(size=structure.shape) * structure)
            x = (x + rng.normal(size=(size, d)) * 0.5) * gen.pick(rng, (1, 1, 10)) + rng.normal(size=d)
            model.fit(x)
            ready = True
        elif op == "set" or not ready:
            p.biadj_weights = rng.normal(size=structure.shape) * structure
            p.error_means = rng.normal(size=d)
            p.error_variances = rng.uniform(0.2, 2, d)
            ready = True
        elif op == "in place":
            p.biadj_weights[structure] = rng.normal(size=structure.sum())
            p.error_means += rng.normal(size=d)
            p.error_variances *= rng.uniform(0.5, 2)
        elif op == "one":
            name = gen.pick(rng, ("biadj_weights", "error_means", "error_variances"))
            setattr(p, name, getattr(p, name) * 1.7)
        elif op == "sample":
            assert model.sample(int(rng.integers(1, 60))).shape[1] == d
        labels.append(op)
    if not ready:
        return False, []
    weights, means, variances = p.biadj_weights.copy(), p.error_means.copy(), p.error_variances.copy()
    x = model.sample(SIZE)
    moments(x, means, weights.T @ weights + np.diag(variances))
    for a, b in zip((weights, means, variances), (p.biadj_weights, p.error_means, p.error_variances)):
        assert np.array_equal(a, b), "sampling changes the parameters"
    return len(set(labels)) >= 2, labels


def parameters(rng, zero=False):
    k, d = gen.between(rng, 1, 5), gen.between(rng, 1, 6)
    if rng.random() < 0.05:
        k, d = gen.between(rng, 1, 40), gen.between(rng, 7, 40)
    scale = float(gen.pick(rng, (1, 1, 1, 0.01, 100)))
    weights = rng.normal(size=(k, d)) * (rng.random((k, d)) < gen.pick(rng, (0.3, 0.6, 1)))
    if rng.random() < 0.3:
        weights = np.round(weights)
    variances = rng.uniform(0.1, 3, d) * (rng.random(d) < gen.pick(rng, (0.5, 1, 1)))
    if zero:
        variances[:] = 0
    means = rng.normal(size=d) * gen.pick(rng, (0, 1, 1, 10))
    return {
        "weights": (weights * scale).tolist(),
        "means": (means * scale).tolist(),
        "variances": (variances * scale**2).tolist(),
        "seed": int(rng.integers(2**32)),
        "dtype": gen.pick(rng, ("float64", "float64", "float32", "whole", "whole")),
    }


def with_sizes(rng):
    case = parameters(rng)
    case["sizes"] = rng.choice([0, 1, 2, 3, 7, 50], 4).tolist()
    return case


def histories(rng):
    ops = ("fit", "set", "in place", "in place", "one", "one", "sample", "sample", "sample")
    return {
        "biadj": gen.make_structure(rng, max_latent=3, max_meas=5, min_meas=2),
        "seed": int(rng.integers(2**31)),
        "ops": [[gen.pick(rng, ops), int(rng.integers(2**31))] for _ in range(gen.between(rng, 2, 8))],
    }


def gens(rng):
    return {
        "num_meas": gen.between(rng, 2, 7),
        "density": float(rng.random()),
        "seed": int(rng.integers(2**32)),
    }


def many(rng):
    k, d = gen.between(rng, 1, 3), gen.between(rng, 1, 3)
    return {
        "weights": rng.normal(size=(k, d)).tolist(),
        "means": rng.normal(size=d).tolist(),
        "variances": rng.uniform(0.1, 3, d).tolist(),
        "seed": int(rng.integers(2**32)),
        "sizes": [int(10 ** rng.uniform(4, 6)) for _ in range(gen.pick(rng, (1, 1, 2)))],
    }


SUBS = [
    Sub("moments", gen.seeded(parameters), check, 240, 8000),
    Sub("noiseless", gen.seeded(parameters, zero=True), noiseless, 180, 5000),
    Sub("shape", gen.seeded(with_sizes), shape, 300, 6000),
    Sub("large", gen.seeded(many), large, 24, 500),
    Sub("history", gen.seeded(histories), history, 150, 5000),
    Sub("generated", gen.seeded(gens), generated, 60, 2000),
]
