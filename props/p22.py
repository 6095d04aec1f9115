"""P22: penalised estimators report, return and sample the optimum of their objective."""
import math

import numpy as np

from medil.models import DevMedil
from vlib import gen
from vlib.core import Sub

RULE = (
    "datasets with 2 to 5 columns and up to 200 rows, both methods, penalties 0 to 5, with and without the one-pure-child assumption (i.e. different numbers of latents), generator states, "
    "defaults and explicit arguments; the objectives are recomputed from their definitions; samples of 4000 rows (3 to 12 sample statistics each, 6.5 standard errors) are compared with the estimated model; "
    "non-trivial: several latents or penalties"
)
ASSUMPTIONS = [
    "numerical optimization: for at least 3/4 of a batch of fits without penalties (one-pure-child), the covariance is reproduced up to 1e-3 of its largest entry; "
    "with penalties, for at least half of a batch of fits the objective is stationary up to 0.02 when scaling weights or variances",
]


def dataset_of(case):
    rng = np.random.default_rng(case["data seed"])
    x = gen.data(rng, case["n"], case["d"], case["kind"])
    std = x.std(0)
    x[:, std == 0] = rng.standard_normal((len(x), (std == 0).sum()))
    # no nearly perfect correlations, which make the optimization ill-conditioned
    x = x / x.std(0) + 0.5 * rng.standard_normal(x.shape)
    return x * np.array(case["scale"]) + np.array(case["shift"])


def covariance(x):
    dev = x - x.mean(0)
    return dev.T @ dev / (len(x) - 1)


def objective(weights, variances, cov, lam, mu, method):
    model = weights.T @ weights + np.diag(variances)
    penalty = lam * np.linalg.svd(weights, compute_uv=False).sum() + mu * np.abs(weights).sum()
    if method == "lse":
        return ((cov - model) ** 2).sum() + penalty
    return np.trace(cov @ np.linalg.inv(model)) + np.log(np.linalg.eigvalsh(model)).sum() + penalty


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def fit(case, model, x):
    method, how = case["method"], case["how"]
    lam, mu = case["lambda"], case["mu"]
    if how == "defaults":
        lam = mu = 0.1
        args, kwargs = (), {}
    elif how == "keywords":
        args, kwargs = (), {"mu_reg": mu, "lambda_reg": lam}
    else:
        args, kwargs = (lam, mu), {}
    if case["via fit"]:
        if method == "mle" and how == "defaults":
            result = model.fit(x)
        else:
            result = model.fit(x, method, *args, **kwargs)
    else:
        result = getattr(model, f"fit_penalized_{method}")(x, *args, **kwargs)
    assert result is model, "fit doesn't return the model"
    return lam, mu


def make(case):
    return DevMedil(one_pure_child=case["opc"], rng=np.random.default_rng(case["seed"]))


def estimates(case, model, x, lam, mu):
    """The estimates, after checking them."""
    method, d = case["method"], case["d"]
    weights, noise = np.asarray(model.W_hat), np.asarray(model.D_hat)
    k = d if case["opc"] else d * d // 4
    assert weights.shape == (k, d) and noise.shape == (d, d), f"{weights.shape}, {noise.shape}"
    variances = np.diag(noise).copy()
    assert (noise == np.diag(variances)).all(), "error covariance isn't diagonal"
    assert (variances >= 0).all(), f"negative error variances {variances}"
    value = objective(weights, variances, covariance(x), lam, mu, method)
    assert close(model.result.fun, value), f"optimum {model.result.fun}, but the estimates' objective is {value}"
    validation = getattr(model, f"validation_{method}")(lam, mu, x)
    assert close(validation, value), f"validation {validation} instead of {value}"
    return weights, variances, value


def slope(weights, variances, cov, lam, mu, method, h=1e-5):
    """Derivatives of the objective in the weights' and the variances' scale."""
    f = lambda a, b: objective(weights * a, variances * b, cov, lam, mu, method)
    return max(abs(f(1 + h, 1) - f(1 - h, 1)), abs(f(1, 1 + h) - f(1, 1 - h))) / (2 * h)


def check(case):
    x = dataset_of(case)
    before = x.copy()
    model = make(case)
    lam, mu = fit(case, model, x)
    assert np.array_equal(x, before), "the dataset was changed"
    weights, variances, value = estimates(case, model, x, lam, mu)
    cov = covariance(x)
    labels = [case["method"], "opc" if case["opc"] else "not opc", case["how"]]
    if lam == mu == 0:
        labels.append("unpenalised")
    if not (np.isfinite(weights).all() and np.isfinite(variances).all()):
        raise AssertionError("estimates aren't finite")
    # another dataset and other penalties
    y = x[: len(x) // 2 + 2] * 1.3
    lam, mu = 0.37, 0.21
    validation = getattr(model, f"validation_{case['method']}")(lam, mu, y)
    value = objective(weights, variances, covariance(y), lam, mu, case["method"])
    assert close(validation, value), f"validation {validation} instead of {value}"
    assert np.array_equal(model.W_hat, weights), "validation changes the estimates"
    # the same generator state gives the same estimates
    again = make(case)
    fit(case, again, x)
    assert np.array_equal(again.W_hat, weights) and np.array_equal(np.diag(again.D_hat), variances)
    return len(weights) > 1, labels


def batch(case):
    slopes = []
    for one in case["fits"]:
        x = dataset_of(one)
        model = make(one)
        lam, mu = fit(one, model, x)
        weights, variances, _ = estimates(one, model, x, lam, mu)
        slopes.append(slope(weights, variances, covariance(x), lam, mu, one["method"]))
    assert np.median(slopes) <= 0.02, f"estimates aren't stationary: {np.sort(slopes)}"
    return True, []


def exact(case):
    """Without penalties, the covariance is reproduced."""
    errors, slopes = [], []
    for one in case["fits"]:
        x = dataset_of(one)
        model = make(one)
        lam, mu = fit(one, model, x)
        weights, variances, _ = estimates(one, model, x, lam, mu)
        cov = covariance(x)
        slopes.append(slope(weights, variances, cov, lam, mu, one["method"]) / (1 + (cov**2).sum()))
        if one["opc"]:
            errors.append(np.abs(weights.T @ weights + np.diag(variances) - cov).max() / cov.max())
    assert np.mean(np.array(errors) <= 1e-3) >= 0.75, f"fitted covariances are off by {errors}"
    assert np.mean(np.array(slopes) <= 0.05) >= 0.75, f"slopes {slopes}"
    return True, []


def sampling(case):
    x = dataset_of(case)
    model = make(case)
    for method in ("mle", "lse", None):
        try:
            model.sample(3) if method is None else model.sample(3, method)
        except ValueError:
            continue
        raise AssertionError("sampling before fitting")
    for bad in ("MLE", "ols", "", None):
        for call in (lambda: model.sample(3, bad), lambda: model.fit(x, bad)):
            try:
                call()
            except ValueError:
                continue
            raise AssertionError(f"method {bad!r} accepted")
    methods = case["order"]
    estimated = {}
    for pos, method in enumerate(methods):
        one = {**case, "method": method}
        lam, mu = fit(one, model, x * (1 + pos))
        weights, variances, _ = estimates(one, model, x * (1 + pos), lam, mu)
        estimated[method] = weights.T @ weights + np.diag(variances)
        if len(set(methods[: pos + 1])) == 1:
            try:
                model.sample(3, "lse" if method == "mle" else "mle")
            except ValueError:
                pass
            else:
                raise AssertionError("sampling from a model that hasn't been fitted")
    num = case["rows"]
    for method, cov in estimated.items():
        state = [model.W_hat.copy(), model.D_hat.copy()]
        draws = model.sample(num) if method == "mle" and case["default"] else model.sample(num, method)
        assert np.array_equal(state[0], model.W_hat) and np.array_equal(state[1], model.D_hat)
        assert draws.shape == (num, case["d"]), f"sample of shape {draws.shape}"
        second = model.sample(num, method=method)
        assert not np.array_equal(draws, second), "the same sample twice"
        std = np.sqrt(np.diag(cov))
        assert (np.abs(draws.mean(0)) <= 6.5 * std / math.sqrt(num)).all(), f"mean {draws.mean(0)}"
        got = draws.T @ draws / num
        # standard errors of a Gaussian's sample covariances, and some slack for their tails
        se = np.sqrt((np.outer(std**2, std**2) + cov**2) / num)
        assert (np.abs(got - cov) <= 6.5 * se + 30 * np.outer(std, std) / num).all(), (
            f"{method}: covariance {got.tolist()} instead of {cov.tolist()}"
        )
        # rows are independent
        lag = draws[1:].T @ draws[:-1] / (num - 1)
        bound = 6.5 * np.outer(std, std) / math.sqrt(num - 1) + 30 * np.outer(std, std) / num
        assert (np.abs(lag) <= bound).all(), "consecutive rows are dependent"
    return True, ["+".join(methods)]


def spec(rng, penalties=None):
    d = gen.between(rng, 2, 5 if rng.random() < 0.3 else 4)
    scale = np.full(d, 1.0) if rng.random() < 0.5 else rng.uniform(0.4, 3, d)
    free = rng.random() < 0.4 if penalties is None else not penalties
    return {
        "data seed": int(rng.integers(2**32)),
        "seed": int(rng.integers(2**32)),
        "n": gen.between(rng, d + 8, 200),
        "d": d,
        "kind": gen.pick(rng, ("gauss", "factor", "uniform", "ties", "lattice", "copies")),
        "scale": scale.tolist(),
        "shift": (rng.normal(size=d) * gen.pick(rng, (0, 0, 5))).tolist(),
        "opc": bool(rng.random() < 0.7),
        "method": gen.pick(rng, ("mle", "lse")),
        "lambda": 0 if free else gen.pick(rng, (0, 0.01, 0.1, 1, 2, 5)),
        "mu": 0 if free else gen.pick(rng, (0, 0.01, 0.1, 1, 2, 5)),
        "how": "positional" if free else gen.pick(rng, ("positional", "keywords", "defaults")),
        "via fit": bool(rng.integers(2)),
    }


def batch_spec(rng):
    return {"fits": [spec(rng, penalties=True) for _ in range(10)]}


def exact_spec(rng):
    fits = [spec(rng, penalties=False) for _ in range(10)]
    for one in fits[:5]:
        one["opc"] = True
    return {"fits": fits}


def sampling_spec(rng):
    case = spec(rng)
    case["order"] = gen.pick(rng, (["mle"], ["lse"], ["mle", "lse"], ["lse", "mle"], ["lse", "lse"]))
    case["rows"] = 4000
    case["default"] = bool(rng.integers(2))
    return case


def smaller(case):
    if case["d"] > 2:
        for d in range(2, case["d"]):
            yield {**case, "d": d, "scale": case["scale"][:d], "shift": case["shift"][:d]}
    for key, value in (("kind", "gauss"), ("n", 20), ("how", "positional"), ("via fit", False)):
        if case[key] != value:
            yield {**case, key: value}
    if any(case["shift"]) or any(s != 1 for s in case["scale"]):
        yield {**case, "shift": [0.0] * case["d"], "scale": [1.0] * case["d"]}


SUBS = [
    Sub("estimates", gen.seeded(spec), check, 150, 6000, shrink=False, minimise=smaller),
    Sub("unpenalised", gen.seeded(exact_spec), exact, 60, 2500, shrink=False),
    Sub("batch", gen.seeded(batch_spec), batch, 12, 500, shrink=False),
    Sub("sampling", gen.seeded(sampling_spec), sampling, 90, 4000, shrink=False, minimise=smaller),
]
