"""P26: seeded results do not depend on earlier or interleaved calls."""
import copy
import random

import numpy as np
import torch

from medil.models import DevMedil, GaussianMCM
from medil.sample import biadj as random_biadj
from medil.sample import mcm
from vlib import gen, ncfa
from vlib.core import Sub

RULE = (
    "histories of 4 to 16 calls (including repetitions of a sample after setting the generator back) on up to 4 streams, each with its own random generator (4 bit generators) and models, interleaved at random with calls that use "
    "default generators, reseed or draw from the global ones, change earlier results, or fit unrelated models; each stream is replayed alone with a fresh generator and must give identical results; "
    "non-trivial: at least two streams with two calls each"
)
ASSUMPTIONS = ["streams don't share generators; models without a generator of their own aren't judged"]

BITS = {"PCG64": np.random.PCG64, "MT19937": np.random.MT19937, "Philox": np.random.Philox, "SFC64": np.random.SFC64}


class Stream:
    """A generator with everything made from it."""

    def __init__(self, spec):
        self.rng = np.random.Generator(BITS[spec["bits"]](spec["seed"]))
        self.models = []

    def run(self, op, options):
        rng = self.rng
        if op == "biadj":
            return [random_biadj(rng=rng, **options)]
        if op == "mcm":
            model = mcm(rng=rng, **options)
        elif op == "mcm given":
            model = mcm(rng=rng, biadj=np.array(options["biadj"]).astype(options["dtype"]))
        elif op == "model":
            model = GaussianMCM(biadj=np.array(options["biadj"]), rng=rng)
            return fitted(model, dataset(options["data"], len(options["biadj"][0])))
        elif op == "penalised":
            model = DevMedil(rng=rng, one_pure_child=options["opc"])
            model.fit(dataset(options["data"], 2), options["method"])
            return [model.W_hat.copy(), model.D_hat.copy(), model.sample(5, options["method"])]
        elif op == "sample":
            if not self.models:
                return []
            model = self.models[options["which"] % len(self.models)]
            return [model.sample(options["n"])]
        elif op == "rewind":
            if not self.models:
                return []
            model = self.models[options["which"] % len(self.models)]
            state = copy.deepcopy(rng.bit_generator.state)
            first = model.sample(options["n"])
            after = copy.deepcopy(rng.bit_generator.state)
            rng.bit_generator.state = state
            second = model.sample(options["n"])
            assert np.array_equal(first, second), "another sample from the same state of the generator"
            assert repr(after) == repr(rng.bit_generator.state), "the generator was advanced differently"
            return [first]
        elif op == "fit":
            if not self.models:
                return []
            model = self.models[options["which"] % len(self.models)]
            return fitted(model, dataset(options["data"], model.biadj.shape[1]))
        self.models.append(model)
        p = model.parameters
        return [model.biadj.copy(), p.biadj_weights.copy(), p.error_means.copy(), p.error_variances.copy()]


def dataset(seed, d):
    rng = np.random.default_rng(seed)
    return rng.normal(size=(12, d)) @ rng.normal(size=(d, d)) + rng.normal(size=(12, d)) * 0.3


def fitted(model, x):
    if x.shape[1] < 2:
        return []
    assert model.fit(x) is model
    p = model.parameters
    return [model.biadj.copy(), p.biadj_weights.copy(), p.error_means.copy(), p.error_variances.copy()]


def disturb(number, results):
    """Calls that mustn't matter."""
    rng = np.random.default_rng(number)
    what = gen.pick(
        rng, ("numpy", "numpy seed", "random", "torch", "default biadj", "default mcm", "default model", "overwrite", "neural")
    )
    if what == "numpy":
        np.random.random(int(rng.integers(1, 9)))
    elif what == "numpy seed":
        np.random.seed(int(rng.integers(2**31)))
    elif what == "random":
        random.seed(int(rng.integers(99)))
    elif what == "torch":
        torch.manual_seed(int(rng.integers(2**31)))
    elif what == "default biadj":
        random_biadj(int(rng.integers(2, 7)))
    elif what == "default mcm":
        mcm(num_meas=int(rng.integers(2, 7))).sample(3)
    elif what == "default model":
        GaussianMCM().fit(dataset(number, 3)).sample(4)
    elif what == "overwrite":
        for result in results:
            for array in result:
                if isinstance(array, np.ndarray) and array.flags.writeable:
                    array[...] = 0
    elif what == "neural" and rng.random() < 0.3:
        with ncfa.scratch():
            ncfa.fit(ncfa.spec(rng, max_d=3, max_n=20))
    return what


def snapshot(result):
    return [(a.dtype.str, a.shape, a.tobytes()) for a in map(np.asarray, result)]


def check(case):
    streams = [Stream(s) for s in case["streams"]]
    seen = [[] for _ in streams]
    raw, labels = [], []
    for step in case["history"]:
        if step["op"] == "other":
            labels.append(disturb(step["number"], raw))
            continue
        i = step["stream"] % len(streams)
        result = streams[i].run(step["op"], step["options"])
        raw.append(result)
        seen[i].append((step, snapshot(result)))
        labels.append(step["op"])
    for i, spec in enumerate(case["streams"]):
        alone = Stream(spec)
        for pos, (step, expected) in enumerate(seen[i]):
            got = snapshot(alone.run(step["op"], step["options"]))
            assert got == expected, (
                f"call {pos} of stream {i} ({step['op']}) gave another result in the interleaved history"
            )
        # the generator has been advanced in the same way
        a, b = streams[i].rng.random(3), alone.rng.random(3)
        assert (a == b).all(), f"stream {i}'s generator was used by other calls"
        for model in streams[i].models:
            first, second = model.sample(6), model.sample(6)
            assert not np.array_equal(first, second), "successive samples are equal"
            assert len(np.unique(np.vstack([first, second]), axis=0)) == 12, "repeated rows"
    return sum(len(s) >= 2 for s in seen) >= 2, labels


def independent(case):
    """Models made from different generators differ and stay apart."""
    make = lambda seed: mcm(rng=np.random.default_rng(seed), **case["options"])
    a, b, c = make(case["seed"]), make(case["seed"]), make(case["seed"] + 1)
    assert np.array_equal(a.parameters.biadj_weights, b.parameters.biadj_weights)
    assert np.array_equal(a.parameters.error_means, b.parameters.error_means)
    assert np.array_equal(a.parameters.error_variances, b.parameters.error_variances)
    assert not np.array_equal(a.parameters.error_variances, c.parameters.error_variances)
    first = a.sample(case["n"])
    c.sample(case["n"])
    c.parameters.error_means[...] = 9
    c.parameters.biadj_weights[...] = 9
    assert np.array_equal(first, b.sample(case["n"])), "models share state"
    assert np.array_equal(a.parameters.error_means, b.parameters.error_means)
    # one sample of the full size has as many different rows
    assert len(np.unique(first, axis=0)) == case["n"]
    return True, []


def options_for(rng, op):
    if op in ("biadj", "mcm", "independent"):
        if rng.random() < 0.25:
            return {
                "num_meas": gen.between(rng, 2, 6),
                "density": gen.pick(rng, (0.2, 0.5, 0.9)),
                "one_pure_child": False,
            }
        num_meas = gen.between(rng, 2, 8)
        options = {"num_meas": num_meas}
        if rng.random() < 0.5:
            options["density"] = gen.pick(rng, (0, 0.3, 0.7, 1, None))
        if rng.random() < 0.5:
            options["num_latent"] = gen.between(rng, 1, num_meas)
        return options
    if op in ("mcm given", "model"):
        return {
            "biadj": gen.make_structure(rng, max_latent=3, max_meas=5, min_meas=2),
            "dtype": gen.pick(rng, ("bool", "int64", "float64")),
            "data": int(rng.integers(2**32)),
        }
    if op == "penalised":
        return {
            "opc": bool(rng.integers(2)),
            "method": gen.pick(rng, ("mle", "lse")),
            "data": int(rng.integers(2**32)),
        }
    return {
        "which": gen.between(rng, 0, 5),
        "n": gen.between(rng, 1, 20),
        "data": int(rng.integers(2**32)),
    }


OPS = ("biadj", "mcm", "mcm", "mcm given", "sample", "sample", "sample", "rewind", "fit", "model", "other", "other", "other", "penalised")


def spec(rng):
    num = gen.between(rng, 1, 4)
    history = []
    for _ in range(gen.between(rng, 4, 16)):
        op = gen.pick(rng, OPS)
        if op == "penalised" and rng.random() < 0.7:
            op = "sample"
        history.append(
            {"op": "other", "number": int(rng.integers(2**32))}
            if op == "other"
            else {"op": op, "stream": gen.between(rng, 0, num - 1), "options": options_for(rng, op)}
        )
    seed = int(rng.integers(2**31))
    return {
        "streams": [
            # equal seeds must not make streams dependent either
            {"bits": gen.pick(rng, tuple(BITS)), "seed": gen.pick(rng, (0, seed, int(rng.integers(2**31))))}
            for _ in range(num)
        ],
        "history": history,
    }


def independent_spec(rng):
    return {
        "seed": int(rng.integers(2**31)),
        "n": gen.between(rng, 1, 30),
        "options": options_for(rng, "independent"),
    }


def smaller(case):
    for i in range(len(case["history"])):
        yield {**case, "history": case["history"][:i] + case["history"][i + 1 :]}


SUBS = [
    Sub("histories", gen.seeded(spec), check, 420, 18000, shrink=False, minimise=smaller),
    Sub("independent", gen.seeded(independent_spec), independent, 240, 8000, shrink=False),
]
