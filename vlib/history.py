"""Histories of calls on one model, graph or network, given as JSON."""
import numpy as np
import torch

from medil.graph import UndirectedDependenceGraph
from medil.models import DevMedil, GaussianMCM, NeuroCausalFactorAnalysis
from medil.sample import mcm
from medil.vae import VariationalAutoencoder
from vlib import gen, work

# -- objects ------------------------------------------------------------------


def make(case):
    what = case["object"]
    rng = work.generator(case)
    if what == "generated":
        return mcm(rng=rng, **case["options"])
    if what == "Gaussian":
        return GaussianMCM(rng=rng, **{k: np.array(v) for k, v in case["given"].items()})
    if what == "penalised":
        return DevMedil(rng=rng, one_pure_child=case["opc"])
    if what == "neural":
        model = NeuroCausalFactorAnalysis(seed=case["number"], path="trained/", rng=rng)
        model.hyperparams.update(case["hyper"])
        return model
    if what == "graph":
        return UndirectedDependenceGraph(np.array(case["graph"]))
    vae = VariationalAutoencoder(*case["shape"])
    randomise(vae, case["seed"])
    return vae


def randomise(vae, seed):
    rng = np.random.default_rng(seed)
    with torch.no_grad():
        for p in vae.parameters():
            p.copy_(torch.tensor(rng.normal(size=p.shape)))


def plain(value):
    return np.array(np.nan if value is None else value)


def state(model):
    """Everything that can be seen of the object."""
    out = []
    if isinstance(model, VariationalAutoencoder):
        return [v.detach().numpy().copy() for _, v in sorted(model.state_dict().items())] + [plain(model.training)]
    if isinstance(model, UndirectedDependenceGraph):
        names = ("adj_matrix", "num_vertices", "num_edges", "common_neighbors", "nbrhood_edge_counts", "the_cover", "extant_edges_idx", "k_num_cliques")
        return [plain(getattr(model, n)).copy() for n in names if hasattr(model, n)]
    out += [plain(model.biadj).copy(), plain(model.udg).copy(), plain(model.one_pure_child)]
    if isinstance(model, GaussianMCM):
        out += [np.array(v) for v in work.params(model)]
    elif isinstance(model, DevMedil):
        for n in ("W_hat", "D_hat", "W_hat_mle", "D_hat_mle", "W_hat_lse", "D_hat_lse"):
            if hasattr(model, n):
                out.append(np.array(getattr(model, n)))
    else:
        out += [plain(v) if not isinstance(v, str) else plain(len(v)) for _, v in sorted(model.hyperparams.items())]
        out.append(plain(model.seed))
        if model.loss is not None:
            out += [np.array(v) for _, v in sorted(model.loss.items())]
            out.append(np.array(model.parameters.weights))
            out += state(model.parameters.vae)
    return out


def call(model, op):
    """One operation; returns what it returned."""
    what = op["op"]
    if what == "sample":
        return [model.sample(op["n"], *op["method"])]
    if what == "fit":
        x = np.array(op["x"])
        if isinstance(model, DevMedil):
            model.fit(x, op["method"][0], op["lambda"], op["mu"])
        else:
            model.fit(x)
        return []
    if what == "validate":
        x = np.array(op["x"])
        return [plain(getattr(model, f"validation_{op['method'][0]}")(op["lambda"], op["mu"], x))]
    if what == "set":
        p = model.parameters
        rng = np.random.default_rng(op["seed"])
        p.error_means = rng.normal(size=p.error_means.shape)
        p.error_variances[...] = rng.random(p.error_variances.shape)
        return []
    if what == "configure":
        model.hyperparams.update(op["hyper"])
        return []
    if what == "learn":
        model.dataset = np.array(op["x"])
        model.udg = np.array([])
        model._compute_biadj()
        return []
    if what == "draw":
        return [model.rng.random(op["n"])]
    # networks
    if what == "evaluate":
        mode, model_mode = op["mode"], model.training
        model.train(mode == "train")
        torch.manual_seed(op["seed"])
        x = torch.tensor(np.array(op["x"]), dtype=torch.float32)
        with torch.no_grad():
            out = [o.numpy().copy() for o in model(x)]
        model.train(model_mode)
        return out
    if what == "train":
        model.train()
        torch.manual_seed(op["seed"])
        optimizer = torch.optim.SGD(model.parameters(), lr=0.01)
        x = torch.tensor(np.array(op["x"]), dtype=torch.float32)
        for _ in range(op["n"]):
            optimizer.zero_grad()
            sum((o**2).mean() for o in model(x)).backward()
            optimizer.step()
        return []
    if what == "scrap":
        randomise(model, op["seed"])
        return []
    # graphs
    if what == "add":
        model.add_edges(np.array(op["edges"], int).reshape(-1, 2))
    elif what == "remove":
        model.rm_edges(np.array(op["edges"], int).reshape(-1, 2))
    elif what == "aux":
        model.make_aux()
    elif what in ("rule_1", "rule_3", "reset", "cover_edges"):
        getattr(model, what)()
    elif what == "rule_2":
        model.k_num_cliques = op["k"]
        model.rule_2()
    elif what == "reduce":
        model.reduzieren(op["k"])
    elif what == "cover":
        idx = [int(i) for i in model.extant_edges_idx]
        if idx:
            edge = model.get_edge(sorted(idx)[op["number"] % len(idx)])
            row = np.zeros((1, len(model.adj_matrix)), int)
            row[0, [int(v) for v in edge]] = 1
            model.the_cover = row if model.the_cover is None else np.vstack([model.the_cover, row])
            model.cover_edges()
    elif what == "reconstruct":
        n = len(model.adj_matrix)
        rows = [] if model.the_cover is None else [np.asarray(model.the_cover)]
        left = [[int(v) for v in model.get_edge(i)] for i in model.extant_edges_idx]
        for u, v in sorted(left):
            row = np.zeros((1, n), int)
            row[0, [u, v]] = 1
            rows.append(row)
        return [np.asarray(model.reconstruct_cover(np.vstack(rows))).copy()] if rows else []
    return []


def run(model, ops, each=None):
    """The results and states after each operation, as copies."""
    out = []
    for i, op in enumerate(ops):
        if each is not None:
            model = each(model, i)
        if op["op"] == "reducible":
            model = model.reducible_copy()
            results = []
        else:
            results = call(model, op)
        out.append([np.array(r) for r in results] + state(model))
    return out


# -- generation ---------------------------------------------------------------


def spec(rng, kinds=("generated", "Gaussian", "penalised", "neural", "graph", "reducible", "network")):
    kind = gen.pick(rng, kinds)
    case = {"object": kind, **work.some_rng(rng)}
    ops = []
    if kind == "generated":
        case.update(work.make_options(rng))
        for _ in range(gen.between(rng, 2, 6)):
            op = gen.pick(rng, ("sample", "sample", "set", "draw"))
            ops.append({"op": op, "n": gen.between(rng, 1, 9), "method": [], "seed": int(rng.integers(99))})
    elif kind == "Gaussian":
        d = gen.between(rng, 2, 5)
        case["given"] = {}
        if rng.random() < 0.3:
            case["given"]["biadj"] = np.array(gen.make_structure(rng, max_latent=3, max_meas=d, min_meas=d), int).tolist()
        elif rng.random() < 0.3:
            adj = np.triu(rng.random((d, d)) < 0.5, 1)
            case["given"]["udg"] = (adj | adj.T | np.eye(d, dtype=bool)).tolist()
        for i in range(gen.between(rng, 2, 6)):
            op = gen.pick(rng, ("fit", "sample", "sample", "set", "draw")) if i else "fit"
            ops.append({"op": op, "n": gen.between(rng, 1, 9), "method": [], "seed": int(rng.integers(99))})
            if op == "fit":
                ops[-1]["x"] = work.some_data(rng, d=d).tolist()
    elif kind == "penalised":
        case["opc"] = bool(rng.random() < 0.8)
        done = set()
        for i in range(gen.between(rng, 2, 4)):
            op = gen.pick(rng, ("fit", "sample", "sample", "validate", "draw")) if i else "fit"
            method = gen.pick(rng, ("mle", "lse"))
            if op == "sample" and method not in done:
                method = min(done)
            if op == "fit":
                done.add(method)
            ops.append({"op": op, "n": gen.between(rng, 1, 9), "method": [method], "lambda": gen.pick(rng, (0, 0.1)), "mu": gen.pick(rng, (0, 0.1))})
            if op in ("fit", "validate"):
                ops[-1]["x"] = work.some_data(rng, d=2).tolist()
    elif kind == "neural":
        d = gen.between(rng, 2, 4)
        case["number"] = int(rng.integers(99))
        case["hyper"] = {"num_epochs": gen.between(rng, 1, 2), "batch_size": gen.pick(rng, (4, 8)), "num_hidden_layers": gen.between(rng, 0, 2), "method": gen.pick(rng, ("xicor", "dcov_fast"))}
        for i in range(gen.between(rng, 2, 4)):
            op = gen.pick(rng, ("fit", "fit", "learn", "configure")) if i else "fit"
            ops.append({"op": op})
            if op == "configure":
                ops[-1]["hyper"] = {gen.pick(rng, ("beta", "mu", "lambda", "alpha")): 0.3}
            else:
                ops[-1]["x"] = work.some_data(rng, d=d).tolist()
    elif kind == "network":
        case.update({k: v for k, v in work.make_net(rng).items() if k == "shape"})
        for _ in range(gen.between(rng, 2, 6)):
            ops.append({
                "op": gen.pick(rng, ("evaluate", "evaluate", "train", "scrap")), "n": gen.between(rng, 1, 3), "seed": int(rng.integers(999)),
                "x": rng.normal(size=(gen.between(rng, 1, 5), case["shape"][1])).round(3).tolist(), "mode": gen.pick(rng, ("train", "eval")),
            })
    else:
        case["object"] = "graph"
        case.update(work.make_graph(rng))
        n = len(case["graph"])
        if kind == "graph":
            for _ in range(gen.between(rng, 2, 8)):
                op = {"op": gen.pick(rng, ("add", "remove"))}
                op["edges"] = [rng.choice(n, 2, replace=False).tolist() for _ in range(gen.between(rng, 1, 4))]
                ops.append(op)
        elif np.triu(case["graph"], 1).any():
            ops.append({"op": "reducible"})
            for _ in range(gen.between(rng, 2, 8)):
                op = {"op": gen.pick(rng, ("rule_1", "rule_2", "rule_3", "rule_3", "reduce", "cover", "cover", "reset"))}
                op["k"], op["number"] = gen.between(rng, 0, 9), gen.between(rng, 0, 99)
                ops.append(op)
            ops.append({"op": "reconstruct"})
    case["ops"] = ops
    return case
