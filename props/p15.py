"""P15: xi correlation and its p-value equal Chatterjee's definition."""
import itertools
import math
import warnings

import numpy as np
from scipy.stats import norm

from medil.independence_testing import xicorr
from vlib import gen
from vlib.core import Sub

RULE = (
    "pairs of sequences of length 2 to 60, without ties in x up to 20000 (gaussian, functional, ties in y, in x, in both, integers, "
    "unsigned, Booleans; lists, tuples, 1-d and 2-d arrays), compared with the published formulas (with ties in x: with every tie-breaking order, at most 200); "
    "monotone transformations, joint reorderings, unequal and empty inputs; non-trivial: at least 5 observations and y not constant"
)
ASSUMPTIONS = [
    "y isn't constant (xi is undefined then); p-values agree up to 1e-9",
]


def formula(x_order, y, ties):
    """Chatterjee (2020): xi and p-value given the order of the observations by x."""
    n = len(y)
    y = [y[i] for i in x_order]
    r = [sum(b <= a for b in y) for a in y]
    l = [sum(b >= a for b in y) for a in y]
    top = n * sum(abs(r[i + 1] - r[i]) for i in range(n - 1))
    xi = 1 - top / (2 * sum(li * (n - li) for li in l))
    if not ties:
        return xi, norm.sf(math.sqrt(n) * xi / math.sqrt(2 / 5))
    u = sorted(r)
    v = list(itertools.accumulate(u))
    an = sum((2 * n - 2 * (i + 1) + 1) * u[i] ** 2 for i in range(n)) / n**4
    bn = sum((v[i] + (n - i - 1) * u[i]) ** 2 for i in range(n)) / n**5
    cn = sum((2 * n - 2 * (i + 1) + 1) * u[i] for i in range(n)) / n**3
    dn = sum(li * (n - li) for li in l) / n**3
    tau2 = (an - 2 * bn + cn**2) / dn**2
    if tau2 <= 1e-12:  # degenerate: no asymptotic law
        return xi, None
    return xi, norm.sf(math.sqrt(n) * xi / math.sqrt(tau2))


def orders(x, limit=200):
    """All orders sorting x, or None if there are too many."""
    groups = [list(g) for _, g in itertools.groupby(sorted(range(len(x)), key=lambda i: x[i]), key=lambda i: x[i])]
    if math.prod(math.factorial(len(g)) for g in groups) > limit:
        return None
    return [
        [i for part in parts for i in part]
        for parts in itertools.product(*(itertools.permutations(g) for g in groups))
    ]


def wrap(values, how):
    if how == "list":
        return [float(v) for v in values]
    if how == "tuple":
        return tuple(float(v) for v in values)
    array = np.array(values)
    if how == "2d":
        return array.reshape(-1, 1)
    if how == "row":
        return array.reshape(1, -1)
    if how == "reversed view":
        return array[::-1].copy()[::-1]
    if how == "float32 exact":
        return array.astype(np.float32) if (array.astype(np.float32) == array).all() else array
    return array.astype(how) if how in ("int64", "uint8", "bool", "int8") else array


def call(x, y, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        xi, pvalue = xicorr(x, y, **kwargs)
    return float(xi), float(pvalue)


def matches(got, expected):
    return abs(got[0] - expected[0]) <= 1e-10 and (
        expected[1] is None or abs(got[1] - expected[1]) <= 1e-9
    )


def check(case):
    x, y, ties = case["x"], case["y"], case["ties"]
    kwargs = {} if ties == "default" else {"ties": ties}
    got = call(wrap(x, case["x as"]), wrap(y, case["y as"]), **kwargs)
    possible = orders(x)
    labels = [f"ties={ties}", "x as " + case["x as"], "y as " + case["y as"]]
    if len(set(y)) < len(y):
        labels.append("ties in y")
    if len(set(x)) < len(x):
        labels.append("ties in x")
    if possible is None:
        return False, labels + ["too many orders"]
    expected = [formula(order, y, bool(ties)) for order in possible]
    assert any(matches(got, e) for e in expected), f"{got} instead of {expected[:5]}"
    if expected[0][1] is None:
        labels.append("degenerate variance")
    return len(y) >= 5, labels


def invariance(case):
    x, y = np.array(case["x"], float), np.array(case["y"], float)
    rng = np.random.default_rng(case["seed"])
    ties = case["ties"]
    kwargs = {} if ties == "default" else {"ties": ties}
    base = call(x, y, **kwargs)

    def same(other, what):
        assert abs(other[0] - base[0]) <= 1e-10, f"{what}: {other} instead of {base}"
        assert abs(other[1] - base[1]) <= 1e-9 or (
            math.isnan(base[1]) and math.isnan(other[1])
        ), f"{what}: {other} instead of {base}"

    ranks = lambda v: np.searchsorted(np.unique(v), v)
    for what, f in (
        ("ranks", ranks),
        ("cubes of ranks", lambda v: (ranks(v) - 3.0) ** 3),
        ("scaled and shifted", lambda v: ranks(v) * 0.125 - 7),
        ("exponential", lambda v: np.exp(ranks(v) / 8.0)),
    ):
        same(call(f(x), y, **kwargs), f"x as {what}")
        same(call(x, f(y), **kwargs), f"y as {what}")
    if len(set(case["x"])) == len(x):
        perm = rng.permutation(len(x))
        same(call(x[perm], y[perm], **kwargs), "reordered")
    return len(y) >= 5, []


def long(case):
    """Long sequences without ties in x."""
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    x = rng.permutation(n) * 0.5 if case["integer"] else rng.standard_normal(n)
    y = x * case["slope"] / x.std() + rng.standard_normal(n)
    if case["round"]:
        y = np.round(y * case["round"])
    order = np.argsort(x)
    s = np.sort(y)
    r, l = np.searchsorted(s, y[order], "right"), n - np.searchsorted(s, y[order], "left")
    r, l = r.astype(float), l.astype(float)
    weight = (l * (n - l)).sum()
    xi = 1 - n * np.abs(np.diff(r)).sum() / (2 * weight)
    for ties in (True, False):
        tau2 = 2 / 5
        if ties:
            u = np.sort(r)
            v, i = np.cumsum(u), np.arange(1, n + 1)
            an = ((2 * n - 2 * i + 1) * u**2).sum() / n**4
            bn = ((v + (n - i) * u) ** 2).sum() / n**5
            cn = ((2 * n - 2 * i + 1) * u).sum() / n**3
            tau2 = (an - 2 * bn + cn**2) / (weight / n**3) ** 2
        expected = xi, norm.sf(math.sqrt(n) * xi / math.sqrt(tau2))
        got = call(x, y, ties=ties)
        assert matches(got, expected), f"{got} instead of {expected} (n={n}, ties={ties})"
    return True, ["ties in y" if case["round"] else "no ties"]


def invalid(case):
    x, y = np.arange(case["n"], dtype=float), np.arange(case["m"], dtype=float)
    if case["n"] == case["m"] == 0:
        xi, pvalue = xicorr(x, y)
        assert math.isnan(xi) and math.isnan(pvalue), f"{xi}, {pvalue} for empty input"
        return True, ["empty"]
    try:
        xicorr(x if case["array"] else list(x), y)
    except ValueError:
        return True, ["unequal"]
    raise AssertionError("sequences of different lengths accepted")


FLOATS = ("array", "list", "tuple", "2d", "row", "reversed view", "float32 exact")
INTS = FLOATS + ("int64", "uint8", "int8")


def spec(rng):
    n = gen.between(rng, 2, 8) if rng.random() < 0.4 else gen.between(rng, 5, 60)
    kind = gen.pick(rng, ("independent", "function", "noisy", "integers", "ties in x", "Booleans"))
    x = rng.permutation(n) * 1.0 if rng.random() < 0.5 else rng.standard_normal(n)
    as_x, as_y = gen.pick(rng, FLOATS), gen.pick(rng, FLOATS)
    if kind == "independent":
        y = rng.standard_normal(n)
    elif kind == "function":
        y = gen.pick(rng, (np.sin, np.abs, lambda v: v, lambda v: -v))(x)
    elif kind == "noisy":
        y = x**2 + rng.standard_normal(n) * 0.3
    elif kind == "Booleans":
        y = (rng.random(n) < 0.5) * 1.0
        as_y = gen.pick(rng, INTS + ("bool",))
    else:
        y = rng.integers(0, gen.pick(rng, (2, 4, 10)), n) * 1.0
        as_y = gen.pick(rng, INTS)
    if kind == "ties in x":
        for _ in range(gen.between(rng, 1, 3)):
            i, j = rng.integers(n, size=2)
            x[i] = x[j]
    if np.ptp(y) == 0:
        y[0] = 1 - y[0]
    return {
        "x": x.tolist(),
        "y": y.tolist(),
        "x as": as_x,
        "y as": as_y,
        "ties": gen.pick(rng, (True, False, "default")),
        "seed": int(rng.integers(2**32)),
    }


def lengths(rng):
    n, m = rng.integers(0, 6, 2).tolist()
    if n == m:
        n = m = 0
    return {"n": n, "m": m, "array": bool(rng.integers(2))}


def smaller(case):
    for i in range(len(case["x"])):
        if len(case["x"]) > 2 and len(set(case["y"][:i] + case["y"][i + 1 :])) > 1:
            yield {
                **case,
                "x": case["x"][:i] + case["x"][i + 1 :],
                "y": case["y"][:i] + case["y"][i + 1 :],
            }


def long_spec(rng):
    return {
        "n": int(10 ** rng.uniform(1.8, 4.3)),
        "slope": gen.pick(rng, (0, 0.3, 1, 10)),
        "integer": bool(rng.integers(2)),
        "round": gen.pick(rng, (0, 1, 5)),
        "seed": int(rng.integers(2**32)),
    }


def shorter(case):
    for n in (63, 100, 200, 500, 1000, 2000, 5000):
        if n < case["n"]:
            yield {**case, "n": n}


SUBS = [
    Sub("formula", gen.seeded(spec), check, 3000, 100000, minimise=smaller),
    Sub("invariance", gen.seeded(spec), invariance, 1200, 40000, minimise=smaller),
    Sub("long", gen.seeded(long_spec), long, 240, 8000, minimise=shorter),
    Sub("invalid", gen.seeded(lengths), invalid, 60, 200),
]
