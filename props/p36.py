"""P36: calls that are rejected say so and have no effects."""
import os

import numpy as np

from medil.independence_testing import estimate_UDG, xicorr
from medil.models import DevMedil, GaussianMCM, MedilCausalModel, NeuroCausalFactorAnalysis
from medil.sample import biadj as random_biadj
from medil.sample import mcm
from props.p27 import differing, freeze
from props.p32 import LAZY, STATE, open_files, others, settle, tree
from vlib import gen, history, ncfa, work
from vlib.core import Sub

RULE = (
    "histories of 2 to 10 calls on generated, Gaussian, penalised and neural models, graphs and networks, with 1 to 6 rejected calls in between (unknown or unimplemented methods and parameterizations with "
    "near-miss names, sequences of different sizes, numbers of latents for random graphs, samples of models that aren't fitted or can't be sampled, fits with unknown methods); each must raise the documented exception and "
    "leave arguments, model, generators, files, processes and settings as they were, and all results are compared bit for bit with the same history without them; non-trivial: at least one rejected call on or before further calls"
)
ASSUMPTIONS = [
    "mcm may have advanced its generator for a structure that it generates before rejecting the parameterization",
    "names are strings, numbers or None",
]

KNOWN = {
    "estimate": ("dcov_fast", "dcov_big", "xicor", "g-test"),
    "fit": ("mle", "lse"),
    "sample": ("mle", "lse"),
    "mcm": ("Gaussian", "VAE"),
}
NOT_YET = ("g-test", "VAE")
OTHERS = ("", "dcov", "xicorr", "xi", "dcor", "g_test", "gtest", "map", "ml", "ls", "mse", "mle_lse", "linear", "NCFA", "neural", "gauss", "None", "default", None, 0, 1, -1, True, 0.05)
ALONE = ("estimate", "estimate", "xicorr", "xicorr", "biadj", "biadj", "mcm", "mcm", "base fit", "base sample", "neural sample")
OWN = {"penalised": ("fit", "fit", "sample", "early sample", "early sample"), "neural": ("own sample", "learn")}


def wrong_name(rng, known):
    name = gen.pick(rng, known)
    how = gen.between(rng, 0, 7)
    if how == 0:
        name = name.upper() if name != name.upper() else name.lower()
    elif how == 1:
        name = name.swapcase()
    elif how == 2:
        name = gen.pick(rng, (" ", "\n", "")) + name + gen.pick(rng, (" ", "\t", "_"))
    elif how == 3:
        name = name[: gen.between(rng, 0, len(name) - 1)]
    elif how == 4:
        name = name + gen.pick(rng, ("s", "2", "_fast", "_big", "r", name))
    elif how == 5:
        name = name.replace("_", "-").replace("i", "I")
    else:
        name = gen.pick(rng, OTHERS + sum((v for k, v in KNOWN.items() if v[0] not in known), ()))
    return name if name not in known else name + "?"


def make_rejected(rng, object_, ops, at):
    own = OWN.get(object_, ())
    call = gen.pick(rng, own if own and rng.random() < 0.6 else ALONE)
    out = {"at": at, "call": call, "times": gen.pick(rng, (1, 1, 2, 3)), **work.some_rng(rng)}
    if call == "early sample":
        done = {op["method"][0] for op in ops[:at] if op["op"] == "fit"}
        left = [m for m in ("mle", "lse") if m not in done]
        if left:
            out["name"] = gen.pick(rng, left)
        else:
            out["call"] = call = "sample"
    if call in ("estimate", "learn"):
        out["name"] = "g-test" if rng.random() < 0.2 else wrong_name(rng, KNOWN["estimate"])
        out["x"] = work.some_data(rng).tolist()
        out["level"] = gen.pick(rng, (0.05, 0.5, 0.0, 1.0))
    elif call == "fit":
        out["name"] = wrong_name(rng, KNOWN["fit"])
        out["x"] = work.some_data(rng, d=gen.pick(rng, (2, 2, 3))).tolist()
    elif call == "sample":
        out["name"] = wrong_name(rng, KNOWN["sample"])
    elif call == "xicorr":
        n, m = gen.between(rng, 0, 12), gen.between(rng, 0, 12)
        if n == m:
            m += 1
        out["x"], out["y"] = rng.integers(0, 9, n).tolist(), rng.normal(size=m).round(2).tolist()
        out["shape"] = gen.pick(rng, ("list", "array", "column", "row"))
        out["ties"] = gen.pick(rng, (None, True, False))
    elif call == "biadj":
        out["options"] = {"num_meas": gen.between(rng, 1, 7), "density": gen.pick(rng, (0.0, 0.2, 0.5, 1.0)), "num_latent": gen.between(rng, 1, 9)}
        out["through"] = gen.pick(rng, ("biadj", "mcm"))
    elif call == "mcm":
        out["name"] = "VAE" if rng.random() < 0.25 else wrong_name(rng, KNOWN["mcm"])
        out["biadj"] = np.array(gen.make_structure(rng, max_latent=4, max_meas=5, min_meas=2), int).tolist() if rng.random() < 0.7 else None
        out["options"] = work.make_options(rng)["options"]
    elif call.startswith("base"):
        out["x"] = work.some_data(rng).tolist()
        out["biadj"] = np.array(gen.make_structure(rng, max_latent=4, max_meas=5, min_meas=2), int).tolist() if rng.random() < 0.5 else None
    out["n"] = gen.between(rng, 0, 9)
    return out


# -- rejected calls -----------------------------------------------------------


def rejected(call, model, path):
    """The call as a function, what it must raise, its arguments and generators."""
    rng = work.generator(call)
    what = call["call"]
    if what in ("estimate", "learn"):
        x = np.array(call["x"])
        error = NotImplementedError if call["name"] in NOT_YET[:1] else ValueError
        if what == "estimate":
            return lambda: estimate_UDG(x, call["name"], call["level"]), error, [x], [], None

        def learn():
            method, kept = model.hyperparams["method"], {k: v for k, v in vars(model).items() if k in ("dataset", "udg")}
            model.hyperparams["method"], model.dataset, model.udg = call["name"], x, np.array([])
            try:
                model._compute_biadj()
            finally:
                left = np.array(model.udg)
                model.hyperparams["method"] = method
                del model.dataset
                vars(model).update(kept)
                assert left.size == 0, f"a rejected method leaves the dependence graph {left.tolist()}"

        return learn, error, [x], [], None
    if what == "fit":
        x = np.array(call["x"])
        return lambda: model.fit(x, call["name"]), ValueError, [x], [], None
    if what == "sample":
        return lambda: model.sample(call["n"], call["name"]), ValueError, [], [], None
    if what == "early sample":
        if call["name"] == "mle" and call["n"] % 2:
            return lambda: model.sample(call["n"]), ValueError, [], [], None
        return lambda: model.sample(call["n"], call["name"]), ValueError, [], [], None
    if what == "own sample":
        return lambda: model.sample(call["n"]), NotImplementedError, [], [], None
    if what == "neural sample":
        other = NeuroCausalFactorAnalysis(path=path, rng=rng)
        return lambda: other.sample(call["n"]), NotImplementedError, [], [rng], other
    if what == "xicorr":
        x, y = call["x"], call["y"]
        if call["shape"] != "list":
            shape = {"array": (-1,), "column": (-1, 1), "row": (1, -1)}[call["shape"]]
            x, y = np.array(x, float).reshape(shape), np.array(y, float).reshape(shape)
        ties = [] if call["ties"] is None else [call["ties"]]
        return lambda: xicorr(x, y, *ties), ValueError, [x, y], [], None
    if what == "biadj":
        make = random_biadj if call["through"] == "biadj" else mcm
        return lambda: make(rng=rng, one_pure_child=False, **call["options"]), ValueError, [], [rng], None
    if what == "mcm":
        error = NotImplementedError if call["name"] == "VAE" else ValueError
        if call["biadj"] is None:
            return lambda: mcm(rng, call["name"], **call["options"]), error, [], [], None
        given = np.array(call["biadj"])
        return lambda: mcm(rng, call["name"], given), error, [given], [rng], None
    given = {} if call["biadj"] is None else {"biadj": np.array(call["biadj"])}
    base, x = MedilCausalModel(rng=rng, **given), np.array(call["x"])
    run = (lambda: base.fit(x)) if what == "base fit" else (lambda: base.sample(call["n"]))
    return run, NotImplementedError, [x, *given.values()], [rng], base


OURS = {k: f for k, f in STATE.items() if k not in LAZY}


def seen(model):
    out = {"results": history.state(model)}
    if isinstance(model, (GaussianMCM, DevMedil, NeuroCausalFactorAnalysis)):
        out["attributes"] = freeze({k: v for k, v in vars(model).items() if k not in ("result", "rng")})
        out["generator"] = repr(model.rng.bit_generator.state)
    return out


def reject(call, model):
    path = os.path.join("other", "")
    run, error, arguments, generators, other = rejected(call, model, path)
    name = f"{call['call']} ({ {k: v for k, v in call.items() if k in ('name', 'options', 'shape', 'through')} })"
    for _ in range(call["times"]):
        before = seen(model), [freeze(a) for a in arguments], [repr(g.bit_generator.state) for g in generators], freeze(other)
        settings = {k: f() for k, f in OURS.items()}
        files, running, written = open_files(), others(), tree()
        result = None
        try:
            result = run()
        except error as exc:
            # NotImplementedError isn't a ValueError, nor the other way round
            assert type(exc) is error, f"rejected {name} raises {type(exc).__name__}"
        except AssertionError:
            raise
        except Exception as exc:
            raise AssertionError(f"rejected {name} raises {type(exc).__name__}({exc}) instead of {error.__name__}") from exc
        else:
            raise AssertionError(f"{name} isn't rejected but gives {str(result)[:300]}")
        after = seen(model), [freeze(a) for a in arguments], [repr(g.bit_generator.state) for g in generators], freeze(other)
        assert work.same(after[0].pop("results"), before[0].pop("results")), f"rejected {name} changes the state of the {type(model).__name__}"
        assert after[0] == before[0], f"rejected {name} changes the model: {differing(after[0], before[0])}"
        assert after[1] == before[1], f"rejected {name} changes its arguments"
        assert after[2] == before[2], f"rejected {name} draws from its generator"
        assert after[3] == before[3], f"rejected {name} changes {differing(after[3], before[3])}"
        for key, value in settings.items():
            assert OURS[key]() == value, f"rejected {name} changes the process's {key}"
        assert tree() == written, f"rejected {name} writes {sorted(set(tree()) ^ set(written))}"
        left = any(what().items() - was.items() for what, was in ((open_files, files), (others, running)))
        left = left and {**settle(open_files, files), **settle(others, running)}
        assert not left, f"rejected {name} leaves {left}"


def check(case):
    with ncfa.scratch():
        expected = history.run(history.make(case), case["ops"])
    with ncfa.scratch():
        os.mkdir("other")
        model = history.make(case)

        def each(model, i):
            for call in case["rejected"]:
                if call["at"] == i:
                    reject(call, model)
            return model

        got = history.run(model, case["ops"], each)
    for i, (a, b) in enumerate(zip(got, expected)):
        assert work.same(a, b), (
            f"call {i} ({case['ops'][i]['op']}) gives {[r.tolist() for r in a]} instead of {[r.tolist() for r in b]} after "
            f"rejected calls {[c['call'] for c in case['rejected'] if c['at'] <= i]}"
        )
    labels = [f"rejected {c['call']}" for c in case["rejected"]]
    return any(c["at"] < len(case["ops"]) for c in case["rejected"]), [case["object"], *labels]


def spec(rng):
    kinds = ("penalised",) if rng.random() < 0.3 else ("generated", "Gaussian", "penalised", "neural", "graph", "reducible", "network")
    case = history.spec(rng, kinds)
    case["rejected"] = [
        make_rejected(rng, case["object"], case["ops"], gen.between(rng, 0, max(0, len(case["ops"]) - 1)))
        for _ in range(gen.between(rng, 1, 6))
    ]
    return case


def smaller(case):
    for i in range(len(case["rejected"])):
        if len(case["rejected"]) > 1:
            yield {**case, "rejected": case["rejected"][:i] + case["rejected"][i + 1 :]}
    for i, call in enumerate(case["rejected"]):
        if call["times"] > 1:
            yield {**case, "rejected": [*case["rejected"][:i], {**call, "times": 1}, *case["rejected"][i + 1 :]]}
    last = max(c["at"] for c in case["rejected"])
    if last + 1 < len(case["ops"]):
        yield {**case, "ops": case["ops"][:-1]}


SUBS = [Sub("histories", gen.seeded(spec), check, 900, 40000, shrink=False, minimise=smaller)]
