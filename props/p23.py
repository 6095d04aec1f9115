"""P23: arguments and model state are never modified by computations."""
import copy
import pickle

import numpy as np

from medil import ecc_algorithms, evaluate, independence_testing, sample, visualize
from medil.models import DevMedil, GaussianMCM, NeuroCausalFactorAnalysis
from vlib import gen, ncfa
from vlib.core import Sub

RULE = (
    "calls of 22 public computations with random arguments (graphs, structures, weights, samples, p-values; several dtypes, memory layouts, "
    "early-return inputs such as edgeless graphs and single latents); every array passed, and the model for sampling and fitting, is compared before and after "
    "bit for bit, and the call is repeated with the same arguments and generator state; also with read-only arguments; non-trivial: arguments with at least 4 entries"
)
ASSUMPTIONS = ["a model's own random generator advances when sampling, and fitting sets the model's parameters and structure"]


def frozen(value):
    """Everything about the arguments that could change."""
    if isinstance(value, np.ndarray):
        return value.dtype.str, value.shape, value.strides, value.tobytes()
    if isinstance(value, (list, tuple)):
        return [frozen(v) for v in value]
    if isinstance(value, dict):
        return {k: frozen(v) for k, v in value.items()}
    return repr(value)


def result_of(value):
    """A comparable copy of the result."""
    if isinstance(value, np.ndarray):
        return value.dtype.str, value.shape, value.tobytes()
    if isinstance(value, (list, tuple)):
        return [result_of(v) for v in value]
    if isinstance(value, GaussianMCM):
        return result_of(
            [value.biadj, value.parameters.biadj_weights, value.parameters.error_means, value.parameters.error_variances]
        )
    if hasattr(value, "__next__"):
        return [result_of(v) for v in value]
    return repr(value)


def generator(seed):
    return np.random.default_rng(seed)


def weights(rng, structure):
    return np.array(structure) * rng.normal(size=np.shape(structure))


def calls(case, rng):
    """Name -> (function, arguments, keyword arguments made anew for each call)."""
    name, dtype, seed = case["call"], case["dtype"], case["seed"]
    none = lambda: {}
    if name in ("find_clique_min_cover", "find_heuristic_1pc", "max_cliques"):
        graph = gen.to_adj(case["graph"], dtype, case["graph"]["diag"])
        return getattr(ecc_algorithms, name), [graph], none
    if name == "add_isolated_verts":
        return ecc_algorithms.add_isolated_verts, [np.array(case["biadj"]).astype(dtype)], none
    if name in ("sfd", "recover_ug"):
        a, b = np.array(case["biadj"]).astype(dtype), np.array(case["other"]).astype(dtype)
        return getattr(evaluate, name), [a, b] if name == "sfd" else [a], none
    if name.startswith("min_perm"):
        pred, true = weights(rng, case["biadj"]), weights(rng, case["other"])
        if dtype.startswith("int"):
            pred, true = np.round(pred * 3).astype(dtype), np.round(true * 3).astype(dtype)
        if len(pred) < len(true):
            pred, true = true, pred
        return getattr(evaluate, name), [pred, true], none
    x = gen.data(rng, case["n"], len(case["biadj"][0]) + 1, case["kind"])
    x = x + 1e-6 * rng.standard_normal(x.shape)
    x = x * case["unit"] + case["offset"]
    if name == "dcov":
        return independence_testing.dcov, [x], none
    if name == "xicorr":
        y = np.round(x[:, 1] * 2) + (np.arange(len(x)) == 0)
        return independence_testing.xicorr, [x[:, 0].copy(), y], none
    if name.startswith("estimate_UDG"):
        method = name.split()[1]
        if method == "supplied":
            p = rng.random((x.shape[1],) * 2)
            method = np.round((p + p.T) / 2, 2)
        return independence_testing.estimate_UDG, [x, method, case["alpha"]], none
    if name == "mcm":
        return sample.mcm, [], lambda: {"biadj": structure, "rng": generator(seed)}
    if name == "get_dag_from_biadj":
        return visualize.get_dag_from_biadj, [np.array(case["biadj"]).astype(dtype)], none
    raise KeyError(name)


def pure(case):
    rng = generator(case["seed"])
    global structure
    structure = np.array(case["biadj"]).astype(case["dtype"])
    function, args, kwargs = calls(case, rng)
    args = [np.asfortranarray(a) if isinstance(a, np.ndarray) and case["fortran"] else a for a in args]
    if case["read-only"]:
        for a in args + [structure]:
            if isinstance(a, np.ndarray):
                a.setflags(write=False)
    before, before_structure = frozen(args), frozen(structure)
    results = []
    for attempt in ("", " in the second call"):
        results.append(result_of(function(*args, **kwargs())))
        assert frozen(args) == before, f"{case['call']} changed its arguments{attempt}"
        assert frozen(structure) == before_structure, f"{case['call']} changed its arguments{attempt}"
    assert results[0] == results[1], f"{case['call']} gives another result in the second call"
    # results share no memory with the arguments
    result = function(*args, **kwargs())
    if not hasattr(result, "__next__"):
        outputs = result if isinstance(result, (list, tuple)) else [result]
        for pos, out in enumerate(outputs):
            if isinstance(out, np.ndarray) and out.flags.writeable and case["call"] not in (
                "estimate_UDG supplied",  # hands the supplied p-values back
            ):
                out[...] = 0
        assert frozen(args) == before, f"{case['call']}'s result is a view of its arguments"
    return sum(a.size for a in args + [structure] if isinstance(a, np.ndarray)) >= 4, [case["call"], case["dtype"]]


def model_state(model):
    state = {k: v for k, v in vars(model).items() if k not in ("rng", "parameters", "dataset")}
    state.update({f"parameters.{k}": v for k, v in vars(model.parameters).items()})
    return frozen(state)


def models(case):
    """Sampling leaves models, fitting leaves datasets and given structures unchanged."""
    rng = generator(case["seed"])
    biadj = np.array(case["biadj"]).astype(case["dtype"])
    d = biadj.shape[1]
    given = biadj.copy()
    model = sample.mcm(rng=generator(case["seed"]), biadj=biadj)
    state = model_state(model)
    rng_state = copy.deepcopy(model.rng.bit_generator.state)
    draws = model.sample(case["n"])
    assert model_state(model) == state, "sampling changed the model"
    kept = draws.copy()
    draws[...] = 0
    model.rng.bit_generator.state = rng_state
    assert np.array_equal(model.sample(case["n"]), kept), "sampling again gives another sample"
    assert model_state(model) == state, "sampling changed the model"

    x = gen.data(rng, case["n"] + 3, d, case["kind"]) + 1e-6 * rng.standard_normal((case["n"] + 3, d))
    x = x * case["unit"] + case["offset"]
    if case["fortran"]:
        x = np.asfortranarray(x)
    if case["read-only"]:
        x.setflags(write=False)
        biadj.setflags(write=False)
    before = frozen(x)
    udg = biadj.T.astype(bool) @ biadj.astype(bool)
    np.fill_diagonal(udg, case["diag"])
    udg_before = frozen(udg)
    fits = []
    for attempt in range(2):
        options = {"biadj": biadj} if case["given"] == "biadj" else {"udg": udg} if case["given"] == "udg" else {}
        if d > 1:
            fitted = GaussianMCM(**options).fit(x)
            fits.append(result_of(fitted))
            fitted.sample(5)
            fits[-1].append(result_of(fitted))
            assert frozen(x) == before, "fitting changed the dataset"
            assert frozen(udg) == udg_before, "fitting changed the given dependence graph"
            assert np.array_equal(biadj, given), "fitting changed the given structure"
    if fits:
        assert fits[0] == fits[1], "fitting a second time gives another result"
    return biadj.size >= 4, [case["given"], case["dtype"]]


def others(case):
    """The neural and penalised estimators."""
    rng = generator(case["seed"])
    x = ncfa.dataset_of(case["ncfa"]) * case["unit"] + case["offset"]
    if case["read-only"]:
        x.setflags(write=False)
    split = ncfa.split_of(case["ncfa"])
    before = frozen([x, split])
    with ncfa.scratch():
        model = NeuroCausalFactorAnalysis(seed=case["ncfa"]["seed"], path="m")
        model.hyperparams.update(case["ncfa"]["hyper"])
        hyper = frozen(model.hyperparams)
        model.fit(x, *([] if split is None else [split]))
        assert frozen([x, split]) == before, "fitting a neural model changed its arguments"
        assert frozen(model.hyperparams) == hyper, "fitting changed the hyperparameters"
    d = x.shape[1]
    if 2 <= d <= 3:
        y = x / x.std(0) + rng.normal(size=x.shape)
        y = y + case["offset"]
        y.setflags(write=not case["read-only"])
        before = frozen(y)
        for method in ("mle", "lse"):
            model = DevMedil(rng=generator(case["seed"])).fit(y, method)
            assert frozen(y) == before, f"the penalised {method} changed its dataset"
            state = frozen([model.W_hat, model.D_hat])
            getattr(model, f"validation_{method}")(0.1, 0.2, y)
            model.sample(4, method)
            assert frozen(y) == before and frozen([model.W_hat, model.D_hat]) == state
    return d > 1, ["penalised" if 2 <= d <= 3 else "neural"]


NAMES = (
    "find_clique_min_cover",
    "find_heuristic_1pc",
    "max_cliques",
    "add_isolated_verts",
    "sfd",
    "recover_ug",
    "min_perm_squared_l2_dist",
    "min_perm_squared_l2_dist_abs",
    "dcov",
    "xicorr",
    "estimate_UDG dcov_fast",
    "estimate_UDG dcov_big",
    "estimate_UDG xicor",
    "estimate_UDG supplied",
    "mcm",
    "get_dag_from_biadj",
)


UNITS = (1, 1, 1e-4, 1e5)
OFFSETS = (0, 0, 3, 1e4, -1e7)


def spec(rng):
    cols = gen.between(rng, 1, 7)
    graph = gen.make_graph(rng, max_n=8)
    if rng.random() < 0.1:
        graph["edges"] = []
    graph["diag"] = bool(rng.integers(2))
    return {
        "call": gen.pick(rng, NAMES),
        "seed": int(rng.integers(2**32)),
        "dtype": gen.pick(rng, ("bool", "int64", "float64", "int8")),
        "graph": graph,
        "biadj": gen.make_matrix01(rng, max_rows=5, cols=cols),
        "other": gen.make_matrix01(rng, max_rows=5, cols=cols),
        "n": gen.between(rng, 6, 30),
        "kind": gen.pick(rng, gen.DATA_KINDS),
        "unit": gen.pick(rng, UNITS),
        "offset": gen.pick(rng, OFFSETS),
        "alpha": gen.pick(rng, (0.01, 0.05, 0.3)),
        "fortran": bool(rng.integers(2)),
        "read-only": bool(rng.integers(2)),
    }


def model_spec(rng):
    case = spec(rng)
    case["biadj"] = gen.make_structure(rng, max_latent=3, max_meas=6)
    case["given"] = gen.pick(rng, ("biadj", "udg", "nothing"))
    case["diag"] = bool(rng.integers(2))
    return case


def other_spec(rng):
    return {
        "seed": int(rng.integers(2**32)),
        "read-only": bool(rng.integers(2)),
        "unit": gen.pick(rng, UNITS),
        "offset": gen.pick(rng, OFFSETS),
        "ncfa": ncfa.spec(rng),
    }


SUBS = [
    Sub("calls", gen.seeded(spec), pure, 1200, 50000, shrink=False),
    Sub("models", gen.seeded(model_spec), models, 300, 12000, shrink=False),
    Sub("estimators", gen.seeded(other_spec), others, 60, 2500, shrink=False),
]
