"""P27: models and results never share state."""
import numpy as np
import torch

from medil.ecc_algorithms import find_clique_min_cover, find_heuristic_1pc, max_cliques
from medil.evaluate import min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs
from medil.independence_testing import dcov, estimate_UDG
from medil.models import DevMedil, GaussianMCM, NeuroCausalFactorAnalysis
from medil.sample import biadj as random_biadj
from medil.sample import mcm
from vlib import gen, ncfa, ref
from vlib.core import Sub

RULE = (
    "histories of 5 to 18 operations on up to 6 Gaussian, random, neural and penalised models that are constructed with or without arguments, configured (attributes, hyperparameters and "
    "parameters replaced or overwritten in place), fitted and sampled, with samples and results overwritten by the caller; after each operation all other models are compared bit for bit with "
    "their states before, and each new model with the first of its kind; and 16 computations repeated after their results have been overwritten; non-trivial: at least two models that are changed after construction"
)
ASSUMPTIONS = [
    "models made without a generator may share the default one, whose state isn't judged",
    "arrays handed over by the caller (datasets, structures) may be kept by reference and aren't overwritten",
]


def freeze(value):
    """A comparable copy of a model's attribute."""
    if isinstance(value, np.ndarray):
        return ("array", value.dtype.str, value.shape, value.tobytes())
    if isinstance(value, torch.nn.Module):
        return (
            "network",
            tuple(m.training for m in value.modules()),
            {k: freeze(v.detach().numpy()) for k, v in value.state_dict().items()},
        )
    if isinstance(value, torch.Tensor):
        return freeze(value.detach().numpy())
    if isinstance(value, dict):
        return {k: freeze(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [freeze(v) for v in value]
    if isinstance(value, np.random.Generator):
        return None
    if isinstance(value, (str, int, float, bool, type(None), np.generic)):
        return (type(value).__name__, value if value == value else "nan")
    if hasattr(value, "__dict__") and type(value).__module__.startswith("medil"):
        return {k: freeze(v) for k, v in vars(value).items()}
    return None


class Entry:
    def __init__(self, kind, model, own):
        self.kind, self.model, self.own = kind, model, own
        self.touched = False

    def state(self):
        state = freeze(self.model)
        if self.own is not None:
            state["generator"] = repr(self.own.bit_generator.state)
        return state


def differing(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for key in sorted(set(a) | set(b), key=str):
            if a.get(key, "missing") != b.get(key, "missing"):
                inner = differing(a.get(key), b.get(key))
                return f"{key}.{inner}" if inner else str(key)
    return ""


def dataset(seed, d, n=14):
    rng = np.random.default_rng(seed)
    return rng.normal(size=(n, d)) @ rng.normal(size=(d, d)) + rng.normal(size=(n, d)) * 0.3


def new(step):
    rng = np.random.default_rng(step["seed"])
    own = np.random.default_rng(step["seed"] + 1) if step["own"] else None
    kwargs = {} if own is None else {"rng": own}
    kind = step["kind"]
    if step["given"] == "structure":
        kwargs["biadj"] = np.array(step["biadj"], bool)
    elif step["given"] == "graph":
        kwargs["udg"] = ref.dependence_graph(np.array(step["biadj"], bool))
    if kind == "gaussian":
        return Entry(kind, GaussianMCM(**kwargs), own)
    if kind == "random":
        kwargs.pop("udg", None)
        if "biadj" not in kwargs:
            kwargs["num_meas"] = int(rng.integers(2, 6))
        return Entry(kind, mcm(**kwargs), own)
    if kind == "penalised":
        return Entry(kind, DevMedil(**kwargs), own)
    path = f"model {step['seed']}/" if step["own"] else "model/"
    return Entry(kind, NeuroCausalFactorAnalysis(seed=step["seed"] % 5, path=path, **kwargs), own)


def measurements(model):
    if getattr(model, "biadj", np.array([])).size:
        return model.biadj.shape[1]
    if getattr(model, "udg", np.array([])).size:
        return len(model.udg)
    return 3


def configure(entry, step):
    model, rng = entry.model, np.random.default_rng(step["seed"])
    options = ["biadj", "udg", "rng", "flag"]
    if entry.kind in ("gaussian", "random"):
        options += ["parameter", "parameter in place"]
    if entry.kind == "neural":
        options += ["hyper", "hyper", "loss in place", "weights in place"]
    if entry.kind == "penalised":
        options += ["estimate in place", "init"]
    what = gen.pick(rng, options)
    if what == "biadj":
        model.biadj = rng.random((2, measurements(model))) < 0.6
    elif what == "udg":
        model.udg = ref.dependence_graph(rng.random((2, measurements(model))) < 0.6)
    elif what == "rng":
        model.rng = entry.own = np.random.default_rng(step["seed"])
    elif what == "flag":
        model.one_pure_child = not model.one_pure_child
    elif what == "hyper":
        key = gen.pick(rng, sorted(model.hyperparams))
        model.hyperparams[key] = "changed" if key in ("method", "heuristic") else 0.5
    elif what == "parameter":
        model.parameters.error_means = rng.normal(size=measurements(model))
    elif what == "parameter in place":
        for name in ("error_means", "error_variances", "biadj_weights"):
            getattr(model.parameters, name)[...] = rng.random()
    elif what == "loss in place" and model.loss is not None:
        for value in model.loss.values():
            value[...] = -1
    elif what == "weights in place":
        with torch.no_grad():
            for p in model.parameters.vae.parameters():
                p.fill_(0.25)
    elif what == "estimate in place" and hasattr(model, "W_hat"):
        model.W_hat[...] = 1
        model.result.x[...] = 2
    elif what == "init":
        model.init_W = None
    return what


def fit(entry, step):
    model = entry.model
    d = measurements(model)
    if entry.kind == "penalised":
        model.fit(dataset(step["seed"], 2), ("mle", "lse")[step["seed"] % 2])
    elif entry.kind == "neural":
        model.hyperparams.update(
            num_epochs=2, batch_size=8, lr=0.005, beta=1, mu=0.01, width_per_meas=1, num_hidden_layers=1, **{"lambda": 0.01}
        )
        model.fit(dataset(step["seed"], d))
    elif d >= 2:
        model.fit(dataset(step["seed"], d))


def sample(entry, step):
    model = entry.model
    n = step["seed"] % 9 + 2
    if entry.kind in ("gaussian", "random"):
        p = model.parameters
        if p.biadj_weights.ndim != 2 or not len(p.biadj_weights):
            return None
        if p.biadj_weights.shape != model.biadj.shape or (p.error_variances < 0).any():
            return None
        if len(p.error_means) != model.biadj.shape[1]:
            return None
        return model.sample(n)
    if entry.kind == "penalised":
        for method in ("mle", "lse"):
            if hasattr(model, f"W_hat_{method}"):
                return model.sample(n, method)
    return None


def shielded(entries, index, what, action):
    """Perform an action on one model while watching the others."""
    before = [e.state() for e in entries]
    result = action()
    for i, (entry, state) in enumerate(zip(entries, before)):
        if i != index:
            after = entry.state()
            assert after == state, (
                f"{what} changed {differing(state, after)} of another model ({entry.kind})"
            )
    return result


def histories(case):
    entries, labels, first = [], [], {}
    with ncfa.scratch():
        for step in case["history"]:
            op = step["op"]
            if op == "new":
                entry = shielded(entries, None, "a new model", lambda: new(step))
                state = freeze(entry.model)
                for key in ("path", "seed"):
                    state.pop(key, None)
                if step["given"] == "nothing" and step["kind"] != "random":
                    start = first.setdefault(step["kind"], state)
                    assert state == start, (
                        f"a new {step['kind']} model starts with another {differing(start, state)}"
                    )
                entries.append(entry)
                labels.append("new " + step["kind"])
                continue
            if not entries:
                continue
            index = step["which"] % len(entries)
            entry = entries[index]
            if op == "configure":
                what = shielded(entries, index, "changing", lambda: configure(entry, step))
                labels.append(what)
                entry.touched = True
            elif op == "fit":
                shielded(entries, index, "fitting", lambda: fit(entry, step))
                labels.append("fit " + entry.kind)
                entry.touched = True
            elif op == "sample":
                drawn = shielded(entries, index, "sampling", lambda: sample(entry, step))
                if drawn is not None:
                    state, copy = freeze(entry.model), drawn.copy()
                    other = sample(entry, step)
                    assert (drawn == copy).all(), "the next sample overwrites the last one"
                    kept = other.copy()
                    drawn[...] = 7
                    assert (other == kept).all(), "samples share memory"
                    assert freeze(entry.model) == state, "overwriting a sample changes the model"
                    labels.append("sample")
    return sum(e.touched for e in entries) >= 2, labels


# -- results belong to the caller -----------------------------------------------------


def computations(case):
    """Computations as functions without arguments that make their own ones."""
    structure = np.array(case["biadj"], bool)
    graph = ref.dependence_graph(structure)
    d = structure.shape[1]
    make = lambda: np.random.default_rng(case["seed"])
    x = dataset(case["seed"], max(d, 2), 16)
    small = dataset(case["seed"], 2, 16)
    weights = make().normal(size=structure.shape) * structure

    def learned():
        model = GaussianMCM()
        model.fit(x.copy())
        p = model.parameters
        return [model.udg, model.biadj, p.error_means, p.error_variances, p.biadj_weights]

    def random_model():
        model = mcm(rng=make(), num_meas=d + 1)
        p = model.parameters
        return [model.biadj, p.error_means, p.error_variances, p.biadj_weights]

    def penalised(method):
        model = DevMedil(rng=make())
        model.fit(small.copy(), method)
        return [model.W_hat, model.D_hat, model.sample(3, method)]

    def neural():
        with ncfa.scratch():
            model = NeuroCausalFactorAnalysis(seed=1, path="m/")
            model.hyperparams.update(num_epochs=2, batch_size=8)
            model.fit(x.copy())
        return [model.parameters.weights, *model.loss.values()]

    def cliques():
        return [np.array(sorted(c)) for c in sorted(map(sorted, max_cliques(graph.copy())))]

    return {
        "exact": lambda: [find_clique_min_cover(graph.copy())],
        "heuristic": lambda: [find_heuristic_1pc(graph.copy())],
        "cliques": cliques,
        "biadj": lambda: [random_biadj(d + 1, rng=make())],
        "random graph": lambda: [random_biadj(d + 1, density=0.5, one_pure_child=False, rng=make())],
        "mcm": random_model,
        "sample": lambda: [mcm(rng=make(), biadj=structure.copy()).sample(5)],
        "fit": learned,
        "mle": lambda: penalised("mle"),
        "lse": lambda: penalised("lse"),
        "neural": neural,
        "distances": lambda: list(dcov(x.copy())),
        "dcov": lambda: list(estimate_UDG(x.copy(), method="dcov_fast")),
        "xicor": lambda: list(estimate_UDG(x.copy(), method="xicor")),
        "perm": lambda: list(min_perm_squared_l2_dist(weights.copy(), weights[::-1].copy())),
        "perm abs": lambda: list(min_perm_squared_l2_dist_abs(weights.copy(), weights[::-1].copy())),
    }


def overwrite(results):
    for result in results:
        if isinstance(result, np.ndarray) and result.flags.writeable:
            result[...] = 1 if result.dtype == bool else 3
        elif isinstance(result, list):
            result.append(99)


def results(case):
    run = computations(case)[case["what"]]
    first = run()
    before = freeze(list(first))
    second = run()
    assert freeze(list(second)) == before, f"{case['what']} gives another result the second time"
    overwrite(first)
    assert freeze(list(second)) == before, f"results of {case['what']} share memory"
    overwrite(second)
    assert freeze(list(run())) == before, f"overwriting the results of {case['what']} changes later ones"
    return True, [case["what"]]


# -- generation -----------------------------------------------------------------------

KINDS = ("gaussian", "gaussian", "random", "random", "penalised", "neural", "neural")


def history_spec(rng):
    history = []
    for pos in range(gen.between(rng, 5, 18)):
        op = gen.pick(rng, ("new", "configure", "configure", "fit", "sample", "sample")) if pos > 1 else "new"
        if op == "new":
            history.append(
                {
                    "op": op,
                    "kind": gen.pick(rng, KINDS),
                    "own": bool(rng.integers(2)),
                    "given": gen.pick(rng, ("nothing", "nothing", "structure", "graph")),
                    "biadj": gen.make_structure(rng, max_latent=3, max_meas=5, min_meas=2),
                    "seed": int(rng.integers(2**31)),
                }
            )
        else:
            history.append({"op": op, "which": int(rng.integers(60)), "seed": int(rng.integers(2**31))})
    return {"history": history}


WHAT = (
    "exact", "heuristic", "cliques", "biadj", "random graph", "mcm", "sample", "fit", "mle", "lse", "neural",
    "distances", "dcov", "xicor", "perm", "perm abs",
)


def results_spec(rng):
    return {
        "what": gen.pick(rng, WHAT),
        "biadj": gen.make_structure(rng, max_latent=4, max_meas=6, min_meas=2),
        "seed": int(rng.integers(2**31)),
    }


def smaller(case):
    for i in range(len(case["history"])):
        yield {**case, "history": case["history"][:i] + case["history"][i + 1 :]}


SUBS = [
    Sub("histories", gen.seeded(history_spec), histories, 360, 15000, shrink=False, minimise=smaller),
    Sub("results", gen.seeded(results_spec), results, 360, 15000, shrink=False),
]
