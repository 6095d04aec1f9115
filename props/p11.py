"""P11: the linear-Gaussian dependence graph estimate is the BIC-optimal edge decision."""
import math

import numpy as np

from medil.models import GaussianMCM
from vlib import gen, ref
from vlib.core import Sub

RULE = (
    "datasets (2 to 8, some 24 columns, 2 to 2000 rows, 8 kinds of dependence incl. exact copies, "
    "scales 1e-4 to 1e4 per column, shifts, negated columns) with pairwise decisions recomputed from correlations in "
    "extended precision; given graphs and structures; row/column permutations and unit changes; non-trivial: both edges and non-edges"
)
ASSUMPTIONS = [
    "pairs within 1e-6 of the decision threshold are not judged",
    "no column is constant",
]


def dataset_of(spec):
    x = gen.data(np.random.default_rng(spec["seed"]), spec["n"], spec["d"], spec["kind"])
    if spec["weak"]:  # dependence close to the threshold
        rng = np.random.default_rng(spec["seed"] + 1)
        x = rng.standard_normal((spec["n"], spec["d"]))
        x = x + spec["weak"] * x[:, [0]] * rng.choice([-1, 0, 1], spec["d"])
    for j in range(spec["d"]):  # no constant columns
        if np.ptp(x[:, j]) == 0:
            x[:, j] = np.arange(spec["n"])
    return gen.form(x * np.array(spec["scale"]) + np.array(spec["shift"]), spec["form"])


def reference(x):
    """(edges, pairs too close to call) from correlations in extended precision."""
    n, d = x.shape
    y = x.astype(np.longdouble)
    y = y - y.mean(0)
    y = y / np.abs(y).max(0)
    y = y / np.sqrt((y**2).sum(0))
    bound = -math.log(n) / n
    edge, open_ = np.zeros((d, d), bool), np.zeros((d, d), bool)
    for i in range(d):
        for j in range(d):
            if i != j:
                rest = float(1 - (y[:, i] @ y[:, j]) ** 2)
                value = math.log(max(rest, 1e-12))
                edge[i, j] = value < bound
                open_[i, j] = abs(value - bound) < 1e-6
    return edge, open_


def estimate(x):
    model = GaussianMCM()
    model.fit(x)
    udg = np.asarray(model.udg)
    d = x.shape[1]
    assert udg.shape == (d, d) and udg.dtype == bool, f"{udg.dtype} {udg.shape}"
    assert (udg == udg.T).all(), "not symmetric"
    assert not udg.diagonal().any(), "self loops"
    # the structure belongs to the graph
    biadj = np.asarray(model.biadj)
    assert not (udg & ~ref.dependence_graph(biadj)).any(), "structure doesn't cover the graph"
    return udg


def check(case):
    x = dataset_of(case)
    udg = estimate(x)
    edge, open_ = reference(x)
    wrong = (udg != edge) & ~open_
    assert not wrong.any(), (
        f"pairs {np.argwhere(np.triu(wrong)).tolist()} are "
        f"{udg[wrong].astype(int).tolist()}, n={len(x)}"
    )
    pairs = edge[np.triu_indices(len(edge), 1)]
    labels = [case["kind"], case["form"]]
    corr = np.corrcoef(x, rowvar=False)
    if (np.abs(corr[np.triu_indices(len(edge), 1)]) > 1 - 1e-9).any():
        labels.append("perfectly correlated pair")
    if open_.any():
        labels.append("pair too close to call")
    close = np.abs(corr[np.triu_indices(len(edge), 1)] ** 2 / (1 - np.exp(-np.log(len(x)) / len(x))) - 1)
    if (close < 0.1).any():
        labels.append("pair close to the threshold")
    return bool(pairs.any() and not pairs.all()), labels


def metamorphic(case):
    """Directly: units, row order and column order, on the same data."""
    x = dataset_of(case)
    rng = np.random.default_rng(case["seed"] + 2)
    d = x.shape[1]
    _, open_ = reference(x)
    if open_.any():
        return False, ["too close to call"]
    udg = estimate(x)
    factor = 2.0 ** rng.integers(-12, 13, d) * rng.choice([-1, 1], d)
    assert (estimate(x * factor) == udg).all(), "depends on the units"
    assert (estimate(x[rng.permutation(len(x))]) == udg).all(), "depends on the row order"
    perm = rng.permutation(d)
    assert (estimate(x[:, perm]) == udg[np.ix_(perm, perm)]).all(), "depends on the column order"
    pairs = udg[np.triu_indices(d, 1)]
    return bool(pairs.any() and not pairs.all()), []


def given(case):
    """A given graph is used as it is, whatever the data says; a given structure, too."""
    x = dataset_of(case["data"])
    adj = gen.to_adj(case["graph"])
    form = gen.array_of(case["graph"])
    if case["what"] == "graph":
        model = GaussianMCM(udg=form)
        model.fit(x)
        udg = np.asarray(model.udg).astype(bool).copy()
        np.fill_diagonal(udg, False)
        assert (udg == adj).all(), "the given graph was changed"
        got = ref.dependence_graph(model.biadj)
        assert not (adj & ~got).any(), "the structure isn't based on the given graph"
        if case["1pc"]:  # then the structure is determined by the graph
            assert (got == adj).all(), "the structure isn't based on the given graph"
    else:
        biadj = np.array(case["biadj"])
        model = GaussianMCM(biadj=biadj, udg=form) if case["both"] else GaussianMCM(biadj=biadj)
        model.fit(x)
        assert (np.asarray(model.biadj).astype(int) == biadj).all(), "the given structure was changed"
    return True, [case["what"]]


def spec(rng, d=None):
    d = (gen.between(rng, 2, 8) if rng.random() < 0.97 else gen.between(rng, 9, 24)) if d is None else d
    n = gen.pick(rng, (2, 3, 4, 5, 8, 15, 30, 100, 500, 2000, 20000, 50000))
    scale = 10.0 ** (rng.uniform(-4, 4, d) if rng.random() < 0.5 else np.zeros(d))
    scale = scale * rng.choice([-1, 1], d)
    return {
        "seed": int(rng.integers(2**32)),
        "n": n,
        "d": d,
        "kind": gen.pick(rng, gen.DATA_KINDS),
        "weak": float(np.sqrt(np.log(n) / n) * rng.uniform(0.7, 1.4)) if rng.random() < 0.3 else 0,
        "scale": scale.tolist(),
        "form": gen.pick(rng, gen.FORMS),
        "shift": (scale * rng.normal(size=d) * gen.pick(rng, (0, 1, 100))).tolist(),
    }


def given_spec(rng):
    one_pure_child = bool(rng.integers(2))
    kinds = ("1pc",) if one_pure_child else gen.KINDS
    graph = gen.make_input(rng, max_n=7, min_n=2, small=False, kinds=kinds)
    case = {"graph": graph, "data": spec(rng, graph["n"]), "what": gen.pick(rng, ("graph", "structure"))}
    case["data"]["n"] = max(case["data"]["n"], 3)
    case["biadj"] = gen.make_structure(rng, max_latent=4, max_meas=graph["n"], min_meas=graph["n"])
    case["both"] = bool(rng.integers(2))
    case["1pc"] = one_pure_child
    return case


SUBS = [
    Sub("decision", gen.seeded(spec), check, 1000, 30000),
    Sub("metamorphic", gen.seeded(spec), metamorphic, 150, 5000),
    Sub("given", gen.seeded(given_spec), given, 240, 8000),
]
