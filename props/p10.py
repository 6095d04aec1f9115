"""P10: Gaussian model fitting returns valid least-squares parameters."""
import numpy as np

from medil.models import GaussianMCM
from vlib import gen
from vlib.core import Sub

RULE = (
    "datasets (2 to 6, some 20 columns, 2 to 3000 rows, 8 kinds of dependence and marginals, scales 1e-3 "
    "to 1e3 and heterogeneous), with one-pure-child or arbitrary 0/1 structures of several dtypes; the first-order "
    "optimality conditions are evaluated with an independent gradient, per fit and over batches of 25 fits; "
    "non-trivial: a structure in which a latent has several children"
)
ASSUMPTIONS = [
    "first-order optimality is judged in units in which the largest variance is 1: projected "
    "gradient at most 0.1 (numerical optimization)"
]


def dataset_of(spec):
    rng = np.random.default_rng(spec["seed"])
    x = gen.data(rng, spec["n"], spec["d"], spec["kind"])
    return gen.form(x * np.array(spec["scale"]) + np.array(spec["shift"]), spec["form"])


def gradient(weights, variances, cov, mask):
    """Projected gradient of the squared Frobenius distance, in the units of the largest variance."""
    unit = np.diag(cov).max() or 1
    weights, variances, cov = weights / np.sqrt(unit), variances / unit, cov / unit
    resid = weights.T @ weights + np.diag(variances) - cov
    grad_w = (4 * weights @ resid)[mask]
    grad_v = 2 * np.diag(resid).copy()
    bound = variances <= 1e-9
    grad_v[bound] = np.minimum(grad_v[bound], 0)
    return max(np.abs(grad_w).max(initial=0), np.abs(grad_v).max()), (resid**2).sum()


def fit_and_check(spec, model=None):
    x = dataset_of(spec)
    mask = np.array(spec["biadj"], bool)
    if model is None:
        model = GaussianMCM(biadj=np.array(spec["biadj"]).astype(spec["dtype"]))
    before = x.copy()
    result = model.fit(x)
    assert result is model, "fit doesn't return the model"
    assert (x == before).all()
    params = model.parameters
    biadj = np.asarray(model.biadj)
    assert biadj.shape == mask.shape and (biadj.astype(bool) == mask).all(), "structure changed"
    weights = np.asarray(params.biadj_weights)
    variances = np.asarray(params.error_variances)
    means = np.asarray(params.error_means)
    d = mask.shape[1]
    assert weights.shape == mask.shape and variances.shape == (d,) and means.shape == (d,)
    assert np.isfinite(weights).all() and np.isfinite(variances).all()
    tol = 1e-9 * np.abs(x).max()
    assert (np.abs(means - np.array([sum(c) / len(c) for c in x.T])) <= tol).all(), "means"
    assert (weights[~mask] == 0).all(), "weights off the structure's edges"
    assert (variances >= 0).all(), f"negative variances {variances}"
    dev = x - x.mean(0)
    cov = dev.T @ dev / (len(x) - 1)
    grad, distance = gradient(weights, variances, cov, mask)
    assert grad <= 0.1, f"projected gradient {grad}"
    return grad, variances, mask


def single(case):
    grad, variances, mask = fit_and_check(case)
    labels = [case["kind"], case["dtype"], case["form"]]
    if (variances == 0).any():
        labels.append("variance at its boundary")
    if grad > 0.003:
        labels.append("imprecise optimum")
    for level in (1e-4, 1e-3, 1e-2):
        if grad > level:
            labels.append(f"grad > {level}")
    return (mask.sum(1) > 1).any().item(), labels


def batch(case):
    grads = [fit_and_check(spec)[0] for spec in case["fits"]]
    good = np.mean(np.array(grads) <= 0.001)
    assert good >= 0.9, f"projected gradients {np.round(np.sort(grads)[::-1][:10], 3).tolist()}"
    return True, []


def refit(case):
    """A fit only depends on the structure and the dataset, not on earlier fits."""
    first, second = case["first"], case["second"]
    model = GaussianMCM(biadj=np.array(first["biadj"]).astype(first["dtype"]))
    fit_and_check(first, model)
    second = {**second, "biadj": first["biadj"]}
    fit_and_check(second, model)
    fresh = GaussianMCM(biadj=np.array(first["biadj"], bool))
    fit_and_check(second, fresh)
    for name in ("biadj_weights", "error_variances", "error_means"):
        assert np.array_equal(getattr(model.parameters, name), getattr(fresh.parameters, name)), (
            f"{name} depend on an earlier fit"
        )
    return True, []


def spec(rng, d=None):
    d = (gen.between(rng, 2, 6) if rng.random() < 0.97 else gen.between(rng, 7, 20)) if d is None else d
    n = gen.pick(rng, (2, 3, 5, 10, 30, 100, 1000, 3000, 20000))
    scale = np.full(d, 10.0 ** rng.uniform(-3, 3) if rng.random() < 0.5 else 1.0)
    if rng.random() < 0.2:
        scale = scale * 10.0 ** rng.uniform(-1, 1, d)
    if rng.random() < 0.7:
        biadj = gen.make_structure(rng, max_latent=4, max_meas=d, min_meas=d)
    else:
        biadj = np.unique(gen.make_matrix01(rng, max_rows=4, cols=d), axis=0).tolist()
    return {
        "seed": int(rng.integers(2**32)),
        "n": n,
        "d": d,
        "kind": gen.pick(rng, gen.DATA_KINDS),
        "scale": scale.tolist(),
        "form": gen.pick(rng, gen.FORMS),
        "shift": (scale * rng.normal(size=d) * gen.pick(rng, (0, 1, 30))).tolist(),
        "biadj": biadj,
        "dtype": gen.pick(rng, ("bool", "int64", "uint8", "float64")),
    }


def batch_spec(rng):
    return {"fits": [spec(rng) for _ in range(25)]}


def pair(rng):
    d = gen.between(rng, 2, 5)
    return {"first": spec(rng, d), "second": spec(rng, d)}


def smaller(case):
    for n in (2, 3, 5, 10, 30, 100):
        if n < case["n"]:
            yield {**case, "n": n}
    if len(case["biadj"]) > 1:
        for i in range(len(case["biadj"])):
            yield {**case, "biadj": case["biadj"][:i] + case["biadj"][i + 1 :]}
    if case["kind"] != "gauss":
        yield {**case, "kind": "gauss"}
    if case["form"] != "plain":
        yield {**case, "form": "plain"}
    if any(case["shift"]):
        yield {**case, "shift": [0.0] * case["d"]}
    if any(s != 1 for s in case["scale"]):
        yield {**case, "scale": [1.0] * case["d"]}


SUBS = [
    Sub("single", gen.seeded(spec), single, 1200, 40000, minimise=smaller),
    Sub("batch", gen.seeded(batch_spec), batch, 30, 1200),
    Sub("refit", gen.seeded(pair), refit, 120, 3000),
]
