"""P18: neural model training is determined by data, seed and hyperparameters."""
import random

import numpy as np
import torch

from vlib import gen, ncfa
from vlib.core import Sub

RULE = (
    "datasets (8 kinds, 8 to 50 rows, 1 to 5 columns), seeds, hyperparameters (1 to 4 epochs, batch sizes 3 to 128, 0 to 3 hidden layers, "
    "widths 1 to 3, all regularisation parameters), default and explicit splits; each model is fitted again after a random history of "
    "reseeding, drawing from the global generators and other fits; non-trivial: the fit has changed the weights"
)
ASSUMPTIONS = ["CPU with one thread; no constant columns"]


def disturb(rng, case, model):
    """Things that may have happened in the process before."""
    history = []
    for _ in range(rng.integers(1, 5)):
        what = gen.pick(
            rng, ("torch seed", "torch draw", "numpy seed", "numpy draw", "random", "fit", "refit", "use")
        )
        history.append(what)
        number = int(rng.integers(2**31))
        if what == "torch seed":
            torch.manual_seed(number)
        elif what == "torch draw":
            torch.randn(number % 7 + 1)
        elif what == "numpy seed":
            np.random.seed(number)
        elif what == "numpy draw":
            np.random.random(number % 7 + 1)
        elif what == "random":
            random.seed(number)
        elif what == "fit":
            ncfa.fit({**ncfa.spec(rng), "seed": number}, path="other/")
        elif what == "refit":
            other = ncfa.spec(rng)
            model.fit(ncfa.dataset_of(other))
        elif what == "use":
            vae = model.parameters.vae
            vae.train()
            vae(torch.randn(3, model.dataset.shape[1]))
    return history


def check(case):
    rng = np.random.default_rng(case["extra"])
    with ncfa.scratch():
        model = ncfa.fit(case)
        state, loss = ncfa.state(model), {k: v.copy() for k, v in model.loss.items()}
        again = ncfa.make(case, path="again/")
        victim = ncfa.fit(case, path="victim/")
        history = disturb(rng, case, victim)
        args = [] if case["split"] is None else [ncfa.split_of(case)]
        x = ncfa.dataset_of(case)
        before = x.copy()
        again.fit(x, *args)
        assert np.array_equal(x, before), "the dataset was changed"
        assert ncfa.same_state(state, ncfa.state(again)), f"other weights after {history}"
        for k in ncfa.LOSSES:
            assert np.array_equal(loss[k], again.loss[k]), f"other {k} after {history}"
        # fitting the same model again starts over
        again.fit(x, *args)
        assert ncfa.same_state(state, ncfa.state(again)), "other weights when fitted again"
        for k in ncfa.LOSSES:
            assert np.array_equal(loss[k], again.loss[k]), f"other {k} when fitted again"
        other = ncfa.fit(case, seed=(case["seed"] + 1 + int(rng.integers(1000))) % 2**31)
        theirs = ncfa.state(other)
        for k in state:
            assert state[k].shape == theirs[k].shape
            assert not np.array_equal(state[k], theirs[k]), f"same {k} for another seed"
        assert not np.array_equal(loss["elbo_train"], other.loss["elbo_train"])
        start = ncfa.state(ncfa.fit(case, lr=0.0))
        moved = not ncfa.same_state(start, state)
    return moved, history + ["explicit split" if case["split"] else "default split"]


def units(case):
    """Changing the measurements' units changes nothing."""
    rng = np.random.default_rng(case["extra"])
    x = ncfa.dataset_of(case)
    with ncfa.scratch():
        model = ncfa.fit(case, x=x)
        factor = 2.0 ** rng.integers(-6, 7, case["d"])
        other = ncfa.fit(case, x=x * factor)
        # exact in floating point arithmetic
        a, b = ncfa.state(model), ncfa.state(other)
        for k in a:
            assert np.allclose(a[k], b[k], rtol=1e-4, atol=1e-5), f"{k} depends on the units {factor}"
        for k in ncfa.LOSSES:
            assert np.allclose(model.loss[k], other.loss[k], rtol=1e-4), f"{k} depends on the units"
        # without learning, rounding errors aren't amplified
        model = ncfa.fit(case, x=x, lr=0.0)
        scale = 10.0 ** rng.uniform(-3, 3, case["d"])
        other = ncfa.fit(case, x=x * scale + scale * rng.normal(size=case["d"]) * 10, lr=0.0)
        for k in ncfa.LOSSES:
            assert np.allclose(model.loss[k], other.loss[k], rtol=1e-3), (
                f"{k} depends on the units: {model.loss[k]}, {other.loss[k]}"
            )
    return case["d"] > 1, ["explicit split" if case["split"] else "default split"]


def splits(case):
    """Validation observations don't influence training; training observations do."""
    rng = np.random.default_rng(case["extra"])
    x = ncfa.dataset_of(case)
    train, valid = ncfa.split_of(case)
    with ncfa.scratch():
        model = ncfa.fit(case)
        others = np.setdiff1d(np.arange(case["n"]), train)
        for idx in (
            rng.permutation(others)[: rng.integers(1, len(others) + 1)],
            np.concatenate([others, others]),
            rng.permutation(train),
        ):
            other = ncfa.fit(case, split=[train, idx])
            assert ncfa.same_state(ncfa.state(model), ncfa.state(other)), (
                "weights depend on the validation observations"
            )
            for k in ("elbo_train", "recon_train"):
                assert np.array_equal(model.loss[k], other.loss[k]), (
                    f"{k} depends on the validation observations"
                )
        # indices as lists are as good as arrays
        other = ncfa.fit(case, split=[train.tolist(), valid.tolist()])
        assert ncfa.same_state(ncfa.state(model), ncfa.state(other))
        assert ncfa.same_losses(model, other)
        # other training observations, same units
        idx = train.copy()
        idx[rng.integers(len(idx))] = others[0]
        if not np.array_equal(np.sort(x[idx], axis=0), np.sort(x[train], axis=0)):
            other = ncfa.fit(case, split=[idx, valid])
            assert not np.array_equal(model.loss["elbo_train"], other.loss["elbo_train"]), (
                "training ignores the training observations"
            )
    return True, []


SUBS = [
    Sub("repeat", gen.seeded(ncfa.spec), check, 150, 6000, shrink=False, minimise=ncfa.smaller),
    Sub("units", gen.seeded(ncfa.spec), units, 120, 5000, shrink=False, minimise=ncfa.smaller),
    Sub("splits", gen.seeded(ncfa.spec, split=True), splits, 90, 4000, shrink=False),
]
