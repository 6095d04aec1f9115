"""P14: dependence graph estimation thresholds the right test for every pair."""
import math

import numpy as np
from scipy.stats import chi2, t as student

from medil.independence_testing import estimate_UDG
from props.p13 import reference as distance_covariances
from props.p15 import formula as xi_formula
from vlib import gen
from vlib.core import Sub

RULE = (
    "samples with 2 to 50 columns and 6 to 120 rows (8 kinds of dependence and marginals, no constant columns; up to 1225 pairs, "
    "i.e. up to 13 chunks of work for the process pool), significance levels 1e-4 to 0.9, all methods incl. supplied p-value matrices, "
    "compared pair by pair with independently computed test statistics and p-values; "
    "non-trivial: the graph has at least one edge and one non-edge (or an exception is expected)"
)
ASSUMPTIONS = [
    "no constant columns; a distance correlation with a column all but one of whose values are equal is undefined; for xi-correlation no ties except in the last column (the order of ties in x is arbitrary)",
    "a pair whose p-value or statistic is within 1e-7 (relative) of the threshold isn't judged",
]


def dcor_pvalue(x, y):
    """t-test of independence with the bias-corrected distance correlation (Szekely & Rizzo 2013)."""
    n = len(x)

    def centre(v):
        dist = np.abs(np.subtract.outer(v, v))
        row = dist.sum(1) / (n - 2)
        out = dist - row[:, None] - row[None, :] + dist.sum() / ((n - 1) * (n - 2))
        np.fill_diagonal(out, 0)
        if (out**2).sum() <= 1e-12 * (dist**2).sum():
            out[...] = math.nan  # no distance variance (all but one value are equal)
        return out

    a, b = centre(x), centre(y)
    r = (a * b).sum() / math.sqrt((a * a).sum() * (b * b).sum())
    v = n * (n - 3) / 2
    if 1 - r * r <= 1e-12:
        return 0.0 if r > 0 else 1.0
    return student.sf(math.sqrt(v - 1) * r / math.sqrt(1 - r * r), v - 1)


def xi_pvalue(x, y):
    order = np.argsort(x).tolist()
    y = y.tolist()
    n = len(y)
    # ranks via sorting instead of the quadratic definition when y has no ties
    if len(set(y)) == n:
        r = np.empty(n)
        r[np.argsort(y)] = np.arange(1, n + 1)
        y = r.tolist()
        xi = 1 - 3 * np.abs(np.diff(r[order])).sum() / (n * n - 1)
        sizes = np.arange(1, n + 1)
        u, v = sizes.astype(float), np.cumsum(sizes).astype(float)
        w = 2 * n - 2 * sizes + 1
        an, bn = (w * u**2).sum() / n**4, ((v + (n - sizes) * u) ** 2).sum() / n**5
        cn, dn = (w * u).sum() / n**3, (sizes * (n - sizes)).sum() / n**3
        # l = n - r + 1, so the sum of l (n - l) is the same over all ranks
        dn = ((n - sizes + 1) * (sizes - 1)).sum() / n**3
        from scipy.stats import norm

        return norm.sf(math.sqrt(n) * xi / math.sqrt((an - 2 * bn + cn**2) / dn**2))
    return xi_formula(order, y, True)[1]


def sample_of(case):
    rng = np.random.default_rng(case["seed"])
    x = gen.data(rng, case["n"], case["d"], case["kind"])
    if case["method"] == "xicor":  # break ties, except in the last column
        last = x[:, -1].copy()
        x = x + 1e-3 * rng.standard_normal(x.shape)
        x[:, -1] = last
    const = np.ptp(x, axis=0) == 0
    x[:, const] = rng.standard_normal((len(x), const.sum()))
    return x * np.array(case["scale"])


def judge(udg, expected, unclear, d):
    udg = np.asarray(udg)
    assert udg.shape == (d, d) and udg.dtype == bool, f"{udg.dtype} {udg.shape}"
    assert not udg.diagonal().any(), "self loops"
    assert (udg == udg.T).all(), "asymmetric"
    np.fill_diagonal(expected, False)
    bad = (udg != expected) & ~unclear
    np.fill_diagonal(bad, False)
    assert not bad.any(), (
        f"pairs {np.argwhere(np.triu(bad, 1)).tolist()[:10]} are wrong; graph has {udg.sum() // 2} edges"
    )
    edges = udg[np.triu_indices(d, 1)]
    return bool(edges.any() and not edges.all())


def check(case):
    x = sample_of(case)
    n, d = x.shape
    alpha, method = case["alpha"], case["method"]
    before = x.copy()
    kwargs = {"method": method, "significance_level": alpha}
    if method == "dcov_fast" and case["default method"]:
        del kwargs["method"]
    if case["default level"]:
        del kwargs["significance_level"]
        alpha = 0.05
    udg, pvals = estimate_UDG(x, **kwargs)
    assert (x == before).all(), "the sample was changed"
    labels = [method, case["kind"], f"{min(d * (d - 1) // 2 // 100, 5)} full chunks"]
    if method == "dcov_fast":
        cov, means = distance_covariances(x)
        stat = n * cov / np.outer(means, means)
        crit = chi2.isf(alpha, 1)
        return judge(udg, stat >= crit, np.abs(stat - crit) <= 1e-7 * crit, d), labels
    test = dcor_pvalue if method == "dcov_big" else xi_pvalue
    expected = np.ones((d, d))
    for i in range(d):
        for j in range(i + 1, d):
            expected[i, j] = expected[j, i] = test(x[:, i], x[:, j])
    pvals = np.asarray(pvals)
    assert pvals.shape == (d, d) and np.array_equal(pvals, pvals.T), "p-values not symmetric"
    off = ~np.eye(d, dtype=bool)
    undefined = np.isnan(expected)
    bad = ~(np.abs(pvals - expected) <= 1e-6) & off & ~undefined
    assert not bad.any(), f"p-values of pairs {np.argwhere(bad).tolist()[:10]} are wrong"
    if undefined.any():
        labels.append("undefined distance correlation")
    unclear = undefined | (np.abs(expected - alpha) <= 1e-6)
    return judge(udg, expected < alpha, unclear, d), labels


def supplied(case):
    rng = np.random.default_rng(case["seed"])
    d, alpha = case["d"], case["alpha"]
    x = rng.standard_normal((case["n"], d))
    pvals = rng.random((d, d)) ** case["power"]
    pvals = np.triu(pvals, 1)
    pvals = pvals + pvals.T + np.diag(rng.random(d))
    for _ in range(case["exact"]):  # p-values equal to the level don't reject
        i, j = rng.integers(d, size=2)
        pvals[i, j] = pvals[j, i] = alpha
    before = pvals.copy()
    udg, returned = estimate_UDG(x, pvals, alpha)
    assert np.array_equal(pvals, before), "the supplied p-values were changed"
    assert np.array_equal(returned, before), "other p-values returned"
    return judge(udg, before < alpha, np.zeros((d, d), bool), d), ["supplied"]


def invalid(case):
    x = np.random.default_rng(case["seed"]).standard_normal((case["n"], case["d"]))
    expected = NotImplementedError if case["method"] == "g-test" else ValueError
    try:
        estimate_UDG(x, case["method"], case["alpha"])
    except expected:
        return True, [case["method"]]
    raise AssertionError(f"method {case['method']!r} accepted")


LEVELS = (1e-10, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.3, 0.5, 0.9, 0.999)


def spec(rng, method):
    big = rng.random() < 0.15 and method != "dcov_fast"
    d = gen.between(rng, 15, 50 if method == "xicor" else 25) if big else gen.between(rng, 2, 9)
    n = gen.between(rng, 6, 25) if big else gen.between(rng, 6, 120)
    if rng.random() < 0.05:
        n, d = (gen.between(rng, 120, 400), gen.between(rng, 2, 4)) if rng.random() < 0.5 or method != "dcov_fast" else (n, gen.between(rng, 10, 40))
    if rng.random() < 0.02:
        n, d = gen.between(rng, 400, 5000 if method == "xicor" else 1500), gen.between(rng, 2, 3)
    return {
        "seed": int(rng.integers(2**32)),
        "n": n,
        "d": d,
        "kind": gen.pick(rng, gen.DATA_KINDS),
        "scale": (10.0 ** rng.integers(-3, 4, d)).tolist(),
        "method": method,
        "default method": bool(rng.integers(2)),
        "default level": bool(rng.random() < 0.2),
        "alpha": gen.pick(rng, LEVELS),
    }


def any_method(rng):
    return spec(rng, gen.pick(rng, ("dcov_fast", "dcov_big", "xicor")))


def supplied_spec(rng):
    return {
        "seed": int(rng.integers(2**32)),
        "n": gen.between(rng, 2, 20),
        "d": gen.between(rng, 1, 12),
        "power": gen.pick(rng, (1, 2, 4)),
        "exact": gen.between(rng, 0, 3),
        "alpha": gen.pick(rng, LEVELS),
    }


NAMES = ("g-test", "g-test", "dcov", "xi", "", "DCOV_FAST", "dcor", "fisher", "dcov_fast ", "g_test", "dcov_bi")


def invalid_spec(rng):
    return {
        "seed": int(rng.integers(2**32)),
        "n": gen.between(rng, 5, 20),
        "d": gen.between(rng, 1, 4),
        "alpha": gen.pick(rng, LEVELS),
        "method": gen.pick(rng, NAMES),
    }


def smaller(case):
    for d in (2, 3, 5, 10, 15, 16, 20):
        if d < case["d"]:
            yield {**case, "d": d, "scale": case["scale"][:d]}
    for n in (6, 8, 10, 20, 40):
        if n < case["n"]:
            yield {**case, "n": n}
    if any(s != 1 for s in case["scale"]):
        yield {**case, "scale": [1.0] * case["d"]}
    if case["kind"] != "gauss":
        yield {**case, "kind": "gauss"}


SUBS = [
    Sub("pairs", gen.seeded(any_method), check, 420, 12000, shrink=False, minimise=smaller),
    Sub("chi-squared", gen.seeded(spec, "dcov_fast"), check, 600, 20000, minimise=smaller),
    Sub("supplied", gen.seeded(supplied_spec), supplied, 400, 6000),
    Sub("invalid", gen.seeded(invalid_spec), invalid, 120, 600),
]
