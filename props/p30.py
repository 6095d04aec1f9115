"""P30: results do not depend on how inputs are represented or on verbosity."""
import os

import numpy as np

from medil.ecc_algorithms import find_clique_min_cover, find_heuristic_1pc, max_cliques
from medil.evaluate import min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs, recover_ug, sfd
from medil.independence_testing import dcov, estimate_UDG, xicorr
from medil.models import DevMedil, GaussianMCM, NeuroCausalFactorAnalysis
from medil.sample import mcm
from medil.visualize import get_dag_from_biadj
from vlib import gen, ncfa
from vlib.core import Sub

RULE = (
    "20 computations on integer-valued graphs, structures, weights and datasets, given as arrays of 6 to 12 dtypes (Boolean, signed and unsigned integers, floats, big-endian), in row- and column-major order, "
    "as strided, reversed and read-only views, and with verbose output or not, compared with the plain representation (Boolean or double, contiguous); "
    "non-trivial: another dtype or layout and at least 3 vertices, measurements or features"
)
ASSUMPTIONS = [
    "only representations that hold the same values exactly are compared, and always numpy arrays",
    "results agree up to 1e-6 (neural models: 1e-3, as single-precision datasets may be standardised in single precision)",
]

BINARY = ("bool", "int8", "uint8", "int16", "int32", "int64", "uint64", "float32", "float64", ">i4", ">f8", "float16")
NUMBERS = ("int8", "int16", "int32", "int64", "float32", "float64", ">i4", ">f8")
LAYOUTS = ("plain", "fortran", "strided", "reversed", "read-only", "transposed")


def represent(x, dtype, layout):
    y = x.astype(dtype)
    assert (y.astype(float) == x.astype(float)).all()
    if layout == "fortran":
        y = np.asfortranarray(y)
    elif layout == "strided":
        wide = np.ones((2 * y.shape[0] + 1, 3 * y.shape[1]), y.dtype)
        wide[1::2, 2::3] = y
        y = wide[1::2, 2::3]
    elif layout == "reversed":
        y = y[::-1, ::-1].copy()[::-1, ::-1]
    elif layout == "transposed":
        y = y.T.copy().T
    elif layout == "read-only":
        y.setflags(write=False)
    return y


def params(model):
    p = model.parameters
    return [model.biadj, p.error_means, p.error_variances, p.biadj_weights]


def on_graphs(graph, verbose, case):
    return {
        "exact": lambda: [find_clique_min_cover(graph, verbose)],
        "heuristic": lambda: [find_heuristic_1pc(graph)],
        "cliques": lambda: [np.array(sorted(c)) for c in sorted(map(sorted, max_cliques(graph)))],
        "given graph": lambda: params(GaussianMCM(udg=graph).fit(case["x"])),
    }


def on_structures(biadj, verbose, case):
    other = np.array(case["other"], bool)
    return {
        "sfd": lambda: [*sfd(biadj, other), *sfd(other, biadj)],
        "same sfd": lambda: list(sfd(biadj, biadj)),
        "recovered": lambda: [recover_ug(biadj).astype(bool)],
        "mcm": lambda: params(mcm(biadj=biadj, rng=np.random.default_rng(3))),
        "sample": lambda: [mcm(biadj=biadj, rng=np.random.default_rng(3)).sample(4)],
        "given structure": lambda: params(GaussianMCM(biadj=biadj).fit(case["x"])),
        "dag": lambda: [get_dag_from_biadj(biadj)],
    }


def on_weights(weights, verbose, case):
    other = np.array(case["other"], float)
    return {
        "perm": lambda: list(min_perm_squared_l2_dist(weights, other))[1:],
        "perm abs": lambda: list(min_perm_squared_l2_dist_abs(weights, other))[1:],
        "perm true": lambda: list(min_perm_squared_l2_dist(other, weights))[1:],
    }


def on_data(x, verbose, case):
    def neural():
        with ncfa.scratch():
            model = NeuroCausalFactorAnalysis(path="m/", verbose=verbose)
            model.hyperparams.update(num_epochs=2, batch_size=8)
            model.fit(x)
            assert os.path.isfile("m/model_recon.pt")
        return [model.parameters.weights, *model.loss.values()]

    def penalised(method):
        model = DevMedil(rng=np.random.default_rng(3))
        model.fit(x[:, :2], method, 0.01, 0.01)
        return [model.compute_sigma(model.W_hat, model.D_hat)]

    return {
        "dcov": lambda: list(dcov(x)),
        "dcov_fast": lambda: [estimate_UDG(x, "dcov_fast")[0]],
        "dcov_big": lambda: list(estimate_UDG(x, "dcov_big")),
        "xicor": lambda: list(estimate_UDG(x, "xicor")),
        "xicorr": lambda: [v for t in (True, False) for v in xicorr(x[:, 0], x[:, 1], t)],
        "fit": lambda: params(GaussianMCM(biadj=np.array(case["biadj"], bool)).fit(x)),
        "learn": lambda: [GaussianMCM().fit(x).udg],
        "mle": lambda: penalised("mle"),
        "lse": lambda: penalised("lse"),
        "neural": neural,
    }


GROUPS = {
    "graph": (on_graphs, ("exact", "exact", "exact", "heuristic", "cliques", "given graph"), BINARY),
    "structure": (on_structures, ("sfd", "same sfd", "recovered", "mcm", "sample", "given structure", "dag"), BINARY),
    "weights": (on_weights, ("perm", "perm abs", "perm true"), NUMBERS),
    "data": (
        on_data,
        ("dcov", "dcov_fast", "dcov_big", "xicor", "xicorr", "fit", "learn", "mle", "lse", "neural"),
        NUMBERS,
    ),
}


def agree(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a.astype(float), b.astype(float), rtol=tol, atol=tol, equal_nan=True)


def check(case):
    functions, _, _ = GROUPS[case["group"]]
    values = np.array(case["values"], float)
    plain = values.astype(bool) if case["group"] in ("graph", "structure") else values
    if "x" in case:
        case["x"] = np.array(case["x"], float)
    what = case["what"]
    expected = functions(plain, False, case)[what]()
    given = represent(values, case["dtype"], case["layout"])
    got = functions(given, case["verbose"], case)[what]()
    assert len(got) == len(expected)
    tol = 1e-3 if what == "neural" else 1e-6
    for a, b in zip(got, expected):
        assert agree(a, b, tol), (
            f"{what} of {case['layout']} {case['dtype']} gives {np.asarray(a).tolist()} instead of {np.asarray(b).tolist()}"
        )
    different = case["dtype"] not in ("bool", "float64") or case["layout"] != "plain" or case["verbose"]
    return different and min(values.shape) >= 2 and max(values.shape) >= 3, [
        what, case["dtype"], case["layout"], "verbose" if case["verbose"] else "quiet",
    ]


def spec(rng):
    group = gen.pick(rng, ("graph", "structure", "weights", "data", "data"))
    _, whats, dtypes = GROUPS[group]
    case = {
        "group": group,
        "what": gen.pick(rng, whats),
        "dtype": gen.pick(rng, dtypes),
        "layout": gen.pick(rng, LAYOUTS),
        "verbose": bool(rng.integers(2)),
    }
    if group == "graph":
        graph = gen.make_graph(rng, max_n=10, min_n=2)
        diag = rng.random() < 0.5 or case["what"] == "heuristic"
        values = gen.to_adj(graph, int, diag=diag)
        case["x"] = (rng.integers(-9, 9, (15, len(values)))).tolist()
    elif group == "structure":
        if rng.random() < 0.1 and case["what"] in ("sfd", "same sfd", "recovered"):
            values = np.ones((gen.pick(rng, (130, 256, 300)), gen.between(rng, 2, 3)), int)
            values[:, 0] = rng.random(len(values)) < 0.5
        else:
            values = np.array(gen.make_structure(rng, max_latent=5, max_meas=7, min_meas=2), int)
        case["other"] = (rng.random((gen.between(rng, 1, 5), values.shape[1])) < 0.5).astype(int).tolist()
        case["x"] = (rng.integers(-9, 9, (15, values.shape[1]))).tolist()
    elif group == "weights":
        size = gen.between(rng, 1, 5), gen.between(rng, 1, 6)
        top = gen.pick(rng, (3, 100))
        values = rng.integers(-top, top + 1, size)
        if rng.random() < 0.3:  # extremes of small integers
            values[rng.random(size) < 0.3] = gen.pick(rng, (-128, 127))
        case["other"] = rng.integers(-top, top + 1, size).tolist()
    else:
        d = gen.between(rng, 2, 5)
        top = gen.pick(rng, (5, 120))
        values = rng.integers(-top, top + 1, (gen.pick(rng, (12, 30, 60)), d))
        for j in range(1, d):
            if rng.random() < 0.5:
                values[:, j] = (values[:, 0] + values[:, j]) // 2
        values[0], values[1] = top, -top  # no constant features
        case["biadj"] = (rng.random((2, d)) < 0.6).astype(int).tolist()
    case["values"] = values.tolist()
    return case


def smaller(case):
    if case["group"] == "data" and len(case["values"]) > 6:
        yield {**case, "values": case["values"][: len(case["values"]) // 2]}
    for key, value in (("layout", "plain"), ("verbose", False)):
        if case[key] != value:
            yield {**case, key: value}


SUBS = [Sub("representations", gen.seeded(spec), check, 1800, 70000, shrink=False, minimise=smaller)]
