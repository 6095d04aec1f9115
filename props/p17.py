"""P17: permutation distances find the optimal matching of latents."""
import numpy as np
from scipy.optimize import linear_sum_assignment

from medil.evaluate import min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs
from vlib import gen
from vlib.core import Sub

RULE = (
    "pairs of weight matrices with 1 to 6 (some 7 or 8) predicted and at most as many true latents and 1 to 8 measurements: unrelated, "
    "noisy or exact reorderings with or without changed signs, small integers with tied distances, Booleans and 0/1 integers, zero rows, scales 1e-3 to 1e3; "
    "compared with the optimum of the linear assignment problem; non-trivial: at least two predicted latents and not equal matrices"
)
ASSUMPTIONS = ["agreement up to 1e-9 relative to the matrices' squared norms"]


def call(fn, pred, true):
    a, b = pred.copy(), true.copy()
    perm, dist = fn(pred, true)
    assert np.array_equal(pred, a) and np.array_equal(true, b), "the matrices were changed"
    return np.asarray(perm), float(dist)


def check(case):
    pred = np.array(case["pred"]).astype(case["dtype pred"])
    true = np.array(case["true"]).astype(case["dtype true"])
    k, d = pred.shape
    x = pred.astype(float)
    y = np.zeros((k, d))
    y[: len(true)] = true
    tol = 1e-9 * ((x**2).sum() + (y**2).sum()) + 1e-300
    rng = np.random.default_rng(case["seed"])
    for fn, view in (
        (min_perm_squared_l2_dist, lambda v: v),
        (min_perm_squared_l2_dist_abs, np.abs),
    ):
        perm, dist = call(fn, pred, true)
        cost = ((view(x)[:, None, :] - view(y)[None, :, :]) ** 2).sum(2)
        best = cost[linear_sum_assignment(cost)].sum()
        assert abs(dist - best) <= tol, f"{fn.__name__}: distance {dist} instead of {best}"
        assert sorted(perm.tolist()) == list(range(k)), f"{fn.__name__}: no permutation: {perm}"
        attained = ((view(x)[perm] - view(y)) ** 2).sum()
        assert abs(attained - dist) <= tol, (
            f"{fn.__name__}: permutation {perm.tolist()} has distance {attained}, not {dist}"
        )
        assert dist >= 0
        if k > 7:  # takes long
            continue
        other = call(fn, pred[rng.permutation(k)], true[rng.permutation(len(true))])[1]
        assert abs(other - dist) <= tol, f"{fn.__name__}: {dist}, reordered {other}"
        if fn is min_perm_squared_l2_dist_abs and x.dtype.kind == "f" and "bool" not in (
            case["dtype pred"],
            case["dtype true"],
        ):
            flip_x = rng.choice([-1, 1], pred.shape)
            flip_y = rng.choice([-1, 1], true.shape)
            other = call(fn, x * flip_x, true.astype(float) * flip_y)[1]
            assert abs(other - dist) <= tol, f"signs matter: {dist}, {other}"
        if case["relation"] == "exact":
            assert dist <= tol, f"{fn.__name__}: {dist} for reordered latents"
        # independent of dtype
        other = call(fn, x, true.astype(float))[1]
        assert abs(other - dist) <= tol, f"{fn.__name__}: {dist}, but {other} for floats"
    return k > 1 and not np.array_equal(x, y), [
        case["relation"],
        case["dtype pred"],
        case["dtype true"],
        "padded" if len(true) < k else "same number of latents",
    ]


def make(rng, max_rows=6):
    relation = gen.pick(rng, ("unrelated", "exact", "noisy", "signs", "integers", "01"))
    k, d = gen.between(rng, 1, max_rows), gen.between(rng, 1, 8)
    m = k if rng.random() < 0.5 else gen.between(rng, 1, k)
    types = ["float64", "float64"]
    scale = gen.pick(rng, (1, 1, 1e-3, 1e3))
    mask = rng.random((k, d)) < gen.pick(rng, (0.3, 0.7, 1))
    if relation == "integers":
        pred = rng.integers(-3, 4, (k, d)) * mask
        true = rng.integers(-3, 4, (m, d))
        types = [gen.pick(rng, ("int64", "int8", "float64", "int32")) for _ in "ab"]
    elif relation == "01":
        pred = (rng.random((k, d)) < 0.5).astype(int)
        true = (rng.random((m, d)) < 0.5).astype(int)
        types = [gen.pick(rng, ("int64", "float64", "int8")) for _ in "ab"]
        if rng.random() < 0.5:
            types[rng.integers(2)] = "bool"
    else:
        true = (rng.normal(size=(k, d)) * mask * scale)[:m]
        pred = np.zeros((k, d))
        pred[:m] = true
        pred = pred[rng.permutation(k)]
        if relation == "unrelated":
            pred = rng.normal(size=(k, d)) * scale * (rng.random((k, d)) < 0.7)
        elif relation == "noisy":
            pred = pred + rng.normal(size=(k, d)) * scale * gen.pick(rng, (0.01, 0.3))
        elif relation == "signs":
            pred = pred * rng.choice([-1, 1], (k, 1))
    return {
        "pred": pred.tolist(),
        "true": true.tolist(),
        "dtype pred": types[0],
        "dtype true": types[1],
        "relation": relation,
        "seed": int(rng.integers(2**32)),
    }


def smaller(case):
    pred, true = case["pred"], case["true"]
    if len(true) > 1:
        for i in range(len(true)):
            yield {**case, "true": true[:i] + true[i + 1 :], "relation": "unrelated"}
    if len(pred) > len(true):
        for i in range(len(pred)):
            yield {**case, "pred": pred[:i] + pred[i + 1 :], "relation": "unrelated"}
    for j in range(len(pred[0])):
        if len(pred[0]) > 1:
            cut = lambda m: [r[:j] + r[j + 1 :] for r in m]
            yield {**case, "pred": cut(pred), "true": cut(true)}


def eight(rng):
    hard = rng.random() < 0.6
    while True:
        case = make(rng, max_rows=8)
        if len(case["pred"]) == 8 and (not hard or case["relation"] in ("unrelated", "integers")):
            return case


SUBS = [
    Sub("matching", gen.seeded(make), check, 1500, 60000, minimise=smaller),
    Sub("larger", gen.seeded(make, max_rows=7), check, 30, 3000, minimise=smaller),
    Sub("more latents", gen.seeded(eight), check, 24, 800),
]
