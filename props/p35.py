"""P35: results reflect the arguments' values at the time of the call."""
import os

import numpy as np
import torch

from medil.models import DevMedil, GaussianMCM, NeuroCausalFactorAnalysis
from medil.sample import mcm
from medil.vae import VariationalAutoencoder
from vlib import cold, gen, ncfa, work
from vlib.core import Sub

RULE = (
    "histories of 3 to 10 calls of 23 computations and of models kept between calls, on buffers (graphs, structures, weights, datasets, parameters, "
    "hyperparameters, network weights) that are changed in place in between (single entries, swaps, permutations, scalings, new contents) or freed and allocated anew; every call is compared with "
    "the same call on fresh copies in a process that has never computed anything; non-trivial: two calls of the same computation whose results differ"
)
ASSUMPTIONS = [
    "arrays change between calls only",
    "fitting a Gaussian model again is judged for given structures (a structure once learnt is kept)",
]

FAMILIES = {
    "graph": ("exact cover", "heuristic", "cliques", "reductions"),
    "structure": ("model of structure", "dag", "drawing", "distances to itself"),
    "pair": ("distances",),
    "weights": ("permutations",),
    "data": ("dcov", "xicorr", "dcor test", "given p-values", "fit", "learn", "penalised", "neural", "test all pairs"),
}
KEPT = {"data": ("refit", "repenalised", "reneural"), "sampling": ("sample",), "network": ("forward",)}
RARE = ("neural", "reneural", "test all pairs", "penalised", "repenalised", "drawing")
BUFFERS = {
    "graph": ("graph",),
    "structure": ("biadj",),
    "pair": ("a", "b"),
    "weights": ("weights", "other"),
    "data": ("x", "biadj"),
    "sampling": ("biadj_weights", "error_means", "error_variances"),
    "network": (),
}
EDITS = ("entry", "swap", "shuffle", "scale", "new", "reorder")


def edit(key, array, how, seed):
    """Changes the array in place, to valid contents."""
    rng = np.random.default_rng(seed)
    if key == "graph":
        n = len(array)
        if how in ("shuffle", "reorder", "swap"):
            perm = rng.permutation(n)
            if how == "swap":
                perm = np.arange(n)
                i, j = rng.integers(n, size=2)
                perm[[i, j]] = perm[[j, i]]
            array[...] = array[np.ix_(perm, perm)]
        elif how == "new":
            new = np.triu(rng.random((n, n)) < rng.random(), 1)
            array[...] = new | new.T | np.eye(n, dtype=bool)
        else:
            i, j = rng.choice(n, 2, replace=False)
            array[i, j] = array[j, i] = 1 - array[i, j]
        return
    binary = key in ("biadj", "a", "b")
    where = tuple(rng.integers(s) for s in array.shape)
    other = tuple(rng.integers(s) for s in array.shape)
    if how == "entry":
        array[where] = 1 - array[where] if binary else array[where] + rng.choice((-1, 1)) * (1 + rng.random())
    elif how == "swap":
        array[where], array[other] = array[other], array[where]
    elif how == "shuffle":  # a column, or everything
        column = array[:, where[1]] if array.ndim == 2 else array
        column[...] = rng.permutation(column)
    elif how == "reorder":
        axis = rng.integers(array.ndim)
        array[...] = rng.permutation(array, axis=axis)
    elif how == "scale" and not binary:
        array[..., where[-1]] *= rng.choice((2, -1, 0.5, -3))
    else:
        array[...] = rng.random(array.shape) < 0.5 if binary else rng.normal(size=array.shape)
    if key == "x":
        flat = np.ptp(array, axis=0) == 0
        array[:, flat] = rng.normal(size=(len(array), flat.sum()))
    elif key == "error_variances":
        array[...] = np.abs(array) + 0.1
    elif binary and not array.any():
        array[where] = 1


def sampler(case):
    rng = work.generator(case["args"])
    return mcm(biadj=np.array(case["args"]["biadj"], bool), rng=rng)


def network(case):
    torch.manual_seed(case["args"]["seed"] % 2**31)
    return VariationalAutoencoder(*case["args"]["shape"]).eval()




def compute(case, name, args, kept, seed):
    """A call with these arguments; kept holds models from earlier calls."""
    if name in work.WORK:
        return work.run(name, args)
    if name == "distances to itself":
        return work.run("distances", {"a": args["biadj"], "b": args["biadj"]})
    if name == "refit":
        if "refit" not in kept:
            kept["refit"] = GaussianMCM(biadj=args["biadj"].astype(bool))
        model = kept["refit"]
        model.biadj[...] = args["biadj"].astype(bool)
        assert model.fit(args["x"]) is model
        return [np.array(v) for v in work.params(model)]
    if name == "repenalised":
        model = kept.setdefault("repenalised", DevMedil())
        model.rng = work.generator(args)
        method = ("mle", "lse")[seed % 2]
        model.fit(args["x"][:, :2], method, 0.05, 0.02)
        loss = getattr(model, f"validation_{method}")(0.1, 0.3, args["x"][:, :2])
        return [model.W_hat.copy(), model.D_hat.copy(), np.array(loss), model.sample(3, method)]
    if name == "reneural":
        with ncfa.scratch():
            model = kept.get("reneural")
            if model is None:
                model = kept["reneural"] = NeuroCausalFactorAnalysis(seed=3, path="m/")
            else:
                os.mkdir("m")
            h = np.random.default_rng(seed)
            model.hyperparams.update(
                {"num_epochs": 1 + seed % 2, "batch_size": 8, "lambda": gen.pick(h, (0.01, 0.3)), "lr": gen.pick(h, (0.005, 0.02))}
            )
            model.fit(args["x"])
            return [model.parameters.weights.copy(), *(v.copy() for v in model.loss.values())]
    if name == "sample":
        if "sample" not in kept:
            kept["sample"] = sampler(case)
        model = kept["sample"]
        for key in BUFFERS["sampling"]:
            stored = getattr(model.parameters, key)
            stored[...] = args[key]  # in place, as users do
        model.rng = np.random.default_rng(seed)
        return [model.sample(1 + seed % 7)]
    if name == "forward":
        if "forward" not in kept:
            kept["forward"] = network(case)
        vae = kept["forward"]
        with torch.no_grad():
            for key, p in sorted(vae.named_parameters()):
                p.copy_(torch.tensor(args[key]))
            return [out.numpy().copy() for out in vae(torch.tensor(args["input"], dtype=torch.float32))]
    raise KeyError(name)


def initial(case):
    args = work.thaw(case["args"])
    if case["family"] == "sampling":
        p = sampler(case).parameters
        args.update({key: getattr(p, key).copy() for key in BUFFERS["sampling"]})
    elif case["family"] == "network":
        args["input"] = args.pop("x")
        for key, p in network(case).named_parameters():
            args[key] = p.detach().numpy().copy()
    return args


def copied(args):
    return {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in args.items()}


def target(case, args, step):
    keys = sorted(k for k, v in args.items() if isinstance(v, np.ndarray) and v.size)
    if case["family"] != "network":
        keys = [k for k in keys if k in BUFFERS[case["family"]]]
    return keys[step["which"] % len(keys)]


def check(case):
    """This process only edits arrays; whatever computes is a child of it."""
    args = cold.call(lambda: initial(case))
    scratch = copied(args)
    expected = {}
    for pos, step in enumerate(case["steps"]):
        if "edit" in step:
            key = target(case, scratch, step)
            edit(key, scratch[key], step["edit"], step["seed"])
        else:
            expected[pos] = cold.call(lambda: compute(case, step["call"], copied(scratch), {}, step["seed"]))
    return cold.call(lambda: history(case, args, expected))


def history(case, args, expected):
    kept, seen, labels, differing = {}, {}, [], False
    for pos, step in enumerate(case["steps"]):
        if "edit" in step:
            key = target(case, args, step)
            if step["fresh"]:  # often at the same address
                new = args[key].copy()
                edit(key, new, step["edit"], step["seed"])
                shape, dtype = new.shape, new.dtype
                args[key] = None
                args[key] = np.empty(shape, dtype)
                args[key][...] = new
                labels.append("allocated anew")
            else:
                edit(key, args[key], step["edit"], step["seed"])
                labels.append(step["edit"])
            continue
        name = step["call"]
        got = [np.array(v) for v in compute(case, name, args, kept, step["seed"])]
        want = [np.asarray(e) for e in expected[pos]]
        assert work.same(got, want), f"step {pos}: {name} gives {brief(got)} instead of {brief(want)}"
        labels.append(name)
        if name in seen and not work.same(seen[name], got):
            differing = True
        seen[name] = got
    return differing, labels


def brief(values):
    return str([np.asarray(v).tolist() for v in values])[:400]


def make(rng):
    family = gen.pick(rng, ("graph", "structure", "pair", "weights", "data", "data", "data", "sampling", "network"))
    names = FAMILIES.get(family, ()) + KEPT.get(family, ())
    names = [n for n in names if n not in RARE or rng.random() < 0.2] or list(names[:1])
    if family in ("data", "structure"):  # few different ones, several times
        names = [names[i] for i in rng.permutation(len(names))[:2]]
    maker = {
        "graph": work.make_graph,
        "structure": work.make_structure,
        "pair": work.make_pair,
        "weights": work.make_weights,
        "sampling": work.make_structure,
        "network": work.make_net,
    }
    if family == "data":
        args = work.make_fit(rng)
        args.update(work.make_pen(rng), x=args["x"], number=int(rng.integers(1000)), epochs=gen.between(rng, 1, 2))
        if rng.random() < 0.7 and len(args["x"]) > 12:
            args["x"] = args["x"][:12]
        if (np.ptp(np.array(args["x"]), axis=0) == 0).any():
            args["x"] = rng.normal(size=np.shape(args["x"])).tolist()
    else:
        args = maker[family](rng)
    if "penalised" in names or "repenalised" in names or "neural" in names:
        args["x"] = [row[:3] for row in args["x"]]
        args["biadj"] = [row[:3] for row in args["biadj"]]
    steps = [{"call": gen.pick(rng, names), "seed": int(rng.integers(2**20))}]
    for _ in range(gen.between(rng, 2, 6)):
        for _ in range(gen.between(rng, 1, 2)):
            steps.append(
                {
                    "edit": gen.pick(rng, EDITS),
                    "which": int(rng.integers(64)),
                    "seed": int(rng.integers(2**32)),
                    "fresh": bool(rng.random() < 0.25),
                }
            )
        steps.append({"call": gen.pick(rng, names), "seed": int(rng.integers(2**20))})
    return {"family": family, "args": args, "steps": steps}


def smaller(case):
    for i in range(len(case["steps"])):
        yield {**case, "steps": case["steps"][:i] + case["steps"][i + 1 :]}
    for i, step in enumerate(case["steps"]):
        if step.get("fresh"):
            new = [{**s, "fresh": False} if s is step else s for s in case["steps"]]
            yield {**case, "steps": new}


SUBS = [Sub("buffers", gen.seeded(make), check, 600, 20000, shrink=False, minimise=smaller)]
