"""A catalogue of computations with medil, as pure functions of JSON arguments.

Used by the checks that run the same computations in different circumstances
(threads, processes).
"""
import os

import numpy as np

from vlib import gen

BITS = ("PCG64", "MT19937", "Philox", "SFC64")


def generator(args):
    return np.random.Generator(getattr(np.random, args["bits"])(args["seed"]))


def params(model):
    p = model.parameters
    return [model.biadj, p.error_means, p.error_variances, p.biadj_weights]


def some_data(rng, d=None, top=4):
    d = d or gen.between(rng, 2, top)
    n = gen.between(rng, 8, 30)
    x = gen.data(rng, n, d, gen.pick(rng, gen.DATA_KINDS))
    flat = np.ptp(x, axis=0) == 0
    x[:, flat] = rng.standard_normal((n, flat.sum()))
    return x


def some_rng(rng):
    return {"bits": gen.pick(rng, BITS), "seed": int(rng.integers(2**32))}


# every computation: a function making its arguments and one running it with
# arrays (shared by threads) made from them

WORK = {}


def work(name, make):
    def register(run):
        WORK[name] = make, run
        return run

    return register


def make_graph(rng):
    adj = gen.to_adj(gen.make_graph(rng, max_n=9, min_n=2), int, diag=True)
    return {"graph": adj.tolist()}


def make_structure(rng):
    return {"biadj": np.array(gen.make_structure(rng, max_latent=5, max_meas=6, min_meas=2), int).tolist(), **some_rng(rng)}


def make_pair(rng):
    d = gen.between(rng, 1, 6)
    k = gen.between(rng, 1, 5)
    return {
        "a": (rng.random((k, d)) < 0.5).astype(int).tolist(),
        "b": (rng.random((gen.between(rng, 1, 5), d)) < 0.5).astype(int).tolist(),
    }


def make_weights(rng):
    k, d = gen.between(rng, 1, 5), gen.between(rng, 1, 5)
    return {
        "weights": rng.normal(size=(k, d)).round(3).tolist(),
        "other": rng.normal(size=(gen.between(rng, 1, k), d)).round(3).tolist(),
    }


def make_data(rng):
    return {"x": some_data(rng).tolist(), **some_rng(rng)}


def make_fit(rng):
    x = some_data(rng)
    return {
        "x": x.tolist(),
        "biadj": (rng.random((gen.between(rng, 1, 3), x.shape[1])) < 0.6).astype(int).tolist(),
        **some_rng(rng),
    }


def make_options(rng):
    n = gen.between(rng, 2, 8)
    options = {"num_meas": n, "density": round(float(rng.random()), 2)}
    if rng.random() < 0.5:
        options["one_pure_child"] = False
        options["num_meas"] = min(n, 6)
    elif rng.random() < 0.5:
        options["num_latent"] = gen.between(rng, 1, n)
    return {"options": options, **some_rng(rng)}


def make_pen(rng):
    return {
        "x": some_data(rng, d=2).tolist(),
        "method": gen.pick(rng, ("mle", "lse")),
        "lambda": gen.pick(rng, (0, 0.01, 0.1)),
        "mu": gen.pick(rng, (0, 0.01, 0.1)),
        **some_rng(rng),
    }


def make_net(rng):
    d = gen.between(rng, 1, 4)
    return {
        "shape": [gen.between(rng, 1, 4), d, gen.between(rng, 0, 2), gen.between(rng, 1, 3)],
        "x": rng.normal(size=(gen.between(rng, 1, 9), d)).round(3).tolist(),
        **some_rng(rng),
    }


def make_ncfa(rng):
    return {"x": some_data(rng).tolist(), "number": int(rng.integers(1000)), "epochs": gen.between(rng, 1, 2)}


@work("exact cover", make_graph)
def _(a):
    from medil.ecc_algorithms import find_clique_min_cover

    return [find_clique_min_cover(a["graph"])]


@work("verbose cover", make_graph)
def _(a):
    from medil.ecc_algorithms import find_clique_min_cover

    return [find_clique_min_cover(a["graph"], True)]


@work("heuristic", make_graph)
def _(a):
    from medil.ecc_algorithms import find_heuristic_1pc

    return [find_heuristic_1pc(a["graph"])]


@work("many graphs", lambda rng: {**some_rng(rng), "n": gen.between(rng, 8, 14)})
def _(a):
    from medil.ecc_algorithms import find_heuristic_1pc, max_cliques

    rng, out = generator(a), []
    for _ in range(12):
        adj = np.triu(rng.random((a["n"], a["n"])) < rng.uniform(0.3, 0.8), 1)
        adj = adj | adj.T
        out += [np.array(c) for c in max_cliques(adj)]
        np.fill_diagonal(adj, True)
        out.append(find_heuristic_1pc(adj))
    return out


@work("cliques", make_graph)
def _(a):
    from medil.ecc_algorithms import max_cliques

    return [np.array(c) for c in max_cliques(a["graph"])]


@work("reductions", make_graph)
def _(a):
    from medil.graph import UndirectedDependenceGraph

    graph = UndirectedDependenceGraph(a["graph"].copy())
    if graph.num_edges == 0:
        return []
    graph.make_aux()
    copy = graph.reducible_copy()
    copy.reduzieren(99)
    first = [copy.adj_matrix.copy(), copy.common_neighbors.copy(), copy.nbrhood_edge_counts.copy()]
    copy.reset()
    copy.reduzieren(99)
    return [*first, copy.adj_matrix, np.sort(copy.extant_edges_idx)]


@work("distances", make_pair)
def _(a):
    from medil.evaluate import recover_ug, sfd

    return [*sfd(a["a"], a["b"]), *sfd(a["a"], a["a"]), recover_ug(a["b"])]


@work("permutations", make_weights)
def _(a):
    from medil.evaluate import min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs

    return [
        *min_perm_squared_l2_dist(a["weights"], a["other"]),
        *min_perm_squared_l2_dist_abs(a["weights"], a["other"]),
    ]


@work("dag", make_structure)
def _(a):
    from medil.visualize import get_dag_from_biadj

    return [get_dag_from_biadj(a["biadj"])]


@work("dcov", make_data)
def _(a):
    from medil.independence_testing import dcov, estimate_UDG

    return [*dcov(a["x"]), estimate_UDG(a["x"])[0]]


@work("xicorr", make_data)
def _(a):
    from medil.independence_testing import xicorr

    return [v for t in (True, False) for v in xicorr(a["x"][:, 0], a["x"][:, 1], t)]


@work("dcor test", make_data)
def _(a):
    from medil.independence_testing import dcor_test, xicor_test

    return [dcor_test(a["x"][:, :2].T), xicor_test(a["x"][:, :2].T)]


@work("given p-values", make_data)
def _(a):
    from medil.independence_testing import estimate_UDG

    p = np.abs(np.corrcoef(a["x"], rowvar=False))
    return [*estimate_UDG(a["x"], p, 0.3)]


@work("test all pairs", make_data)
def _(a):
    from medil.independence_testing import estimate_UDG

    return [*estimate_UDG(a["x"], ("dcov_big", "xicor")[a["seed"] % 2])]


@work("structure", make_options)
def _(a):
    from medil.sample import biadj

    return [biadj(rng=generator(a), **a["options"])]


@work("model", make_options)
def _(a):
    from medil.sample import mcm

    model = mcm(rng=generator(a), **a["options"])
    return [*params(model), model.sample(4), model.sample(3)]


@work("model of structure", make_structure)
def _(a):
    from medil.sample import mcm

    model = mcm(rng=generator(a), biadj=a["biadj"])
    return [*params(model), model.sample(4)]


@work("fit", make_fit)
def _(a):
    from medil.models import GaussianMCM

    model = GaussianMCM(biadj=a["biadj"], rng=generator(a))
    model.fit(a["x"])
    return [*params(model), model.sample(3)]


@work("learn", make_data)
def _(a):
    from medil.models import GaussianMCM

    model = GaussianMCM(rng=generator(a)).fit(a["x"])
    return [model.udg, *params(model)]


@work("penalised", make_pen)
def _(a):
    from medil.models import DevMedil

    model = DevMedil(rng=generator(a))
    model.fit(a["x"], a["method"], a["lambda"], a["mu"])
    loss = getattr(model, f"validation_{a['method']}")(a["lambda"], a["mu"], a["x"])
    return [model.W_hat, model.D_hat, loss, model.sample(3, a["method"])]


@work("network", make_net)
def _(a):
    import torch

    from medil.vae import VariationalAutoencoder

    vae = VariationalAutoencoder(*a["shape"])
    rng = generator(a)
    with torch.no_grad():
        for p in vae.parameters():
            p.copy_(torch.tensor(rng.normal(size=p.shape)))
        vae.eval()
        return [out.numpy() for out in vae(torch.tensor(a["x"], dtype=torch.float32))]


@work("neural", make_ncfa)
def _(a):
    from medil.models import NeuroCausalFactorAnalysis

    model = NeuroCausalFactorAnalysis(seed=a["number"], path="trained/")
    model.hyperparams.update(num_epochs=a["epochs"], batch_size=8)
    model.fit(a["x"])
    assert os.path.isfile("trained/model_recon.pt")
    return [model.parameters.weights, *model.loss.values()]


@work("drawing", make_structure)
def _(a):
    import matplotlib.pyplot as plt

    from medil.visualize import show_dag, show_obs_adj_mat

    before = plt.get_fignums()
    show_obs_adj_mat(a["biadj"])
    image = np.array(plt.gca().images[0].get_array(), float)
    plt.figure()
    show_dag(a["biadj"])
    texts = sorted(t.get_text() for t in plt.gca().texts)
    for number in plt.get_fignums():
        if number not in before:
            plt.close(number)
    return [image, np.array([len(texts), sum(map(ord, "".join(texts)))])]


ARRAYS = ("graph", "biadj", "a", "b", "weights", "other", "x")


def thaw(args):
    """Arguments with arrays instead of lists."""
    return {k: np.array(v) if k in ARRAYS else v for k, v in args.items()}


def spec(rng, names):
    name = gen.pick(rng, names)
    return {"work": name, "args": WORK[name][0](rng)}


def run(name, args):
    """Copies of the results, None as NaN."""
    return [np.array(np.nan if r is None else r) for r in WORK[name][1](args)]


def same(a, b, tol=0.0):
    """The same shapes and values (to the last bit unless there's a tolerance)."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        x, y = x.astype(float), y.astype(float)
        if tol == 0 and not np.array_equal(x, y, equal_nan=True):
            return False
        if not np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
            return False
    return True
