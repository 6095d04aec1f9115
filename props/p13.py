"""P13: the distance covariance matrix equals its definition."""
import numpy as np

from medil.independence_testing import dcov
from vlib import gen
from vlib.core import Sub

RULE = (
    "samples with 1 to 6 columns and 2 to 40 rows or 1 to 14 and up to 500, scales up to 1e60 (8 kinds of dependence and marginals incl. ties, "
    "constant columns, scales 1e-6 to 1e6 and large shifts, float64/float32/int64, C or Fortran order or a view), compared with the "
    "definition evaluated pair by pair, and metamorphic relations on samples with up to 150 rows; non-trivial: at least 2 columns of which none is constant"
)
ASSUMPTIONS = ["agreement up to 1e-8 relative to the product of the mean distances"]


def reference(x):
    """Definition: mean over all ordered pairs of products of doubly centred distances."""
    x = x.astype(np.longdouble)
    n, d = x.shape
    centred, means = [], []
    for j in range(d):
        dist = np.abs(x[:, j][:, None] - x[:, j][None, :])
        row = dist.sum(1) / n
        mean = dist.sum() / n**2
        means.append(mean)
        centred.append(dist - row[:, None] - row[None, :] + mean)
    cov = np.array([[(a * b).sum() / n**2 for b in centred] for a in centred])
    return cov.astype(float), np.array(means, float)


def sample_of(case):
    rng = np.random.default_rng(case["seed"])
    x = gen.data(rng, case["n"], case["d"], case["kind"])
    for j in case["constant"]:
        x[:, j] = x[0, j]
    x = x * np.array(case["scale"]) + np.array(case["shift"])
    if case["dtype"] == "int64":
        x = np.round(x * 100).clip(-1e9, 1e9)
    x = x.astype(case["dtype"])
    if case["layout"] == "F":
        x = np.asfortranarray(x)
    elif case["layout"] == "view":
        x = np.repeat(np.repeat(x, 2, axis=0), 2, axis=1)[::2, 1::2]
    return x


def compute(x):
    before = x.copy()
    cov, means = dcov(x)
    assert (x == before).all(), "the sample was changed"
    d = x.shape[1]
    assert np.shape(cov) == (d, d) and np.shape(means) == (d,), "shapes"
    return np.asarray(cov), np.asarray(means)


def close(cov, expected, means, what):
    tol = 1e-8 * np.outer(means, means) + 1e-300
    bad = ~(np.abs(cov - expected) <= tol)
    assert not bad.any(), f"{what}: {cov.tolist()} instead of {expected.tolist()}"


def check(case):
    x = sample_of(case)
    cov, means = compute(x)
    expected, mean_dists = reference(x)
    assert np.allclose(means, mean_dists, rtol=1e-10, atol=0), (
        f"mean distances {means.tolist()} instead of {mean_dists.tolist()}"
    )
    close(cov, expected, mean_dists, "distance covariances")
    assert (cov == cov.T).all() or np.allclose(cov, cov.T, rtol=1e-10)
    diag = np.diag(cov)
    assert (diag >= 0).all()
    constant = np.ptp(x, axis=0) == 0
    assert (diag[constant] == 0).all() and (diag[~constant] > 0).all()
    labels = [case["kind"], case["dtype"]]
    if constant.any():
        labels.append("constant column")
    return x.shape[1] >= 2 and not constant.any(), labels


def metamorphic(case):
    x = sample_of({**case, "dtype": "float64"})
    rng = np.random.default_rng(case["seed"] + 1)
    n, d = x.shape
    cov, means = compute(x)
    other, other_means = compute(x[rng.permutation(n)])
    close(other, cov, means, "row order")
    assert np.allclose(other_means, means, rtol=1e-9)
    factor = 2.0 ** rng.integers(-8, 9, d) * rng.choice([-1, 1], d)
    other, other_means = compute(x * factor)
    close(other, cov * np.abs(np.outer(factor, factor)), means * np.abs(factor), "units")
    assert np.allclose(other_means, means * np.abs(factor), rtol=1e-9)
    perm = rng.permutation(d)
    other, other_means = compute(x[:, perm])
    close(other, cov[np.ix_(perm, perm)], means[perm], "column order")
    shifted = np.round(x * 2**20) / 2**20
    shift = rng.integers(-100, 101, d)
    if np.abs(shifted).max() < 2**20:
        a, b = compute(shifted), compute(shifted + shift)
        close(b[0], a[0], a[1], "shift")
    i = int(rng.integers(d))
    single, _ = compute(x[:, [i]])
    close(single, cov[i : i + 1, i : i + 1], means[i : i + 1], "single column")
    return d >= 2, []


def spec(rng, max_n=40):
    d = gen.between(rng, 1, 6)
    scale = np.ones(d) if rng.random() < 0.5 else 10.0 ** rng.uniform(-6, 6, d)
    return {
        "seed": int(rng.integers(2**32)),
        "n": gen.between(rng, 2, 6) if rng.random() < 0.3 else gen.between(rng, 2, max_n),
        "d": d,
        "kind": gen.pick(rng, gen.DATA_KINDS),
        "constant": [j for j in range(d) if rng.random() < 0.08],
        "scale": scale.tolist(),
        "shift": (scale * rng.normal(size=d) * gen.pick(rng, (0, 1, 100))).tolist(),
        "dtype": gen.pick(rng, ("float64", "float64", "float32", "int64")),
        "layout": gen.pick(rng, ("C", "F", "view")),
    }


def smaller(case):
    for n in range(2, case["n"]):
        yield {**case, "n": n}
    if case["kind"] != "gauss":
        yield {**case, "kind": "gauss"}
    if any(case["shift"]) or any(s != 1 for s in case["scale"]):
        yield {**case, "scale": [1.0] * case["d"], "shift": [0.0] * case["d"]}


def large(rng):
    case = spec(rng)
    d = gen.between(rng, 1, 14)
    scale = 10.0 ** (rng.uniform(-60, 60, d) if rng.random() < 0.5 else np.zeros(d))
    case.update(
        n=gen.between(rng, 41, 500) if rng.random() < 0.8 else gen.between(rng, 501, 2500), d=d, constant=[], scale=scale.tolist(), dtype="float64",
        shift=(scale * rng.normal(size=d)).tolist(),
    )
    return case


SUBS = [
    Sub("definition", gen.seeded(spec), check, 1800, 60000, minimise=smaller),
    Sub("large", gen.seeded(large), check, 60, 2000, minimise=smaller),
    Sub("metamorphic", gen.seeded(spec, max_n=150), metamorphic, 600, 20000, minimise=smaller),
]
