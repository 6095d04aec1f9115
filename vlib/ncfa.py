"""Helpers for the checks of neural models."""
import contextlib
import os
import tempfile

import numpy as np
import torch

from medil.models import NeuroCausalFactorAnalysis
from vlib import gen


def dataset_of(case):
    rng = np.random.default_rng(case["data seed"])
    x = gen.data(rng, case["n"], case["d"], case["kind"])
    const = np.ptp(x, axis=0) == 0
    x[:, const] = rng.standard_normal((len(x), const.sum()))
    return x


def split_of(case):
    if case["split"] is None:
        return None
    return [np.array(part) for part in case["split"]]


@contextlib.contextmanager
def scratch():
    """An empty directory (below the shard's own) to write models to."""
    before = os.getcwd()
    with tempfile.TemporaryDirectory(dir=before) as path:
        os.chdir(path)
        try:
            yield path
        finally:
            os.chdir(before)


def make(case, path="model/", **changes):
    model = NeuroCausalFactorAnalysis(
        seed=changes.pop("seed", case["seed"]), path=path, verbose=case.get("verbose", False)
    )
    model.hyperparams.update({**case["hyper"], **changes})
    return model


def fit(case, x=None, split="case", path="model/", **changes):
    model = make(case, path, **changes)
    result = model.fit(
        dataset_of(case) if x is None else x,
        *([] if case["split"] is None else [split_of(case) if split == "case" else split]),
    )
    assert result is model, "fit doesn't return the model"
    return model


def state(model):
    return {k: v.detach().numpy().copy() for k, v in model.parameters.vae.state_dict().items()}


def same_state(a, b):
    return a.keys() == b.keys() and all(np.array_equal(a[k], b[k]) for k in a)


LOSSES = ("elbo_train", "elbo_valid", "recon_train", "recon_valid")


def same_losses(a, b):
    return all(np.array_equal(a.loss[k], b.loss[k]) for k in LOSSES)


def scrap(rng):
    """Hyperparameters, small enough for fast fits."""
    return {
        "num_epochs": gen.between(rng, 1, 4),
        "batch_size": gen.pick(rng, (3, 5, 8, 16, 128)),
        "lr": gen.pick(rng, (0.005, 0.005, 0.0005, 0.02)),
        "beta": gen.pick(rng, (1, 1, 0, 0.3, 4)),
        "mu": gen.pick(rng, (0.01, 0, 0.5)),
        "lambda": gen.pick(rng, (0.01, 0, 0.5)),
        "width_per_meas": gen.pick(rng, (1, 1, 2, 3)),
        "num_hidden_layers": gen.pick(rng, (1, 0, 1, 2, 3)),
    }


def spec(rng, max_d=5, max_n=50, split=None):
    n = gen.between(rng, 8, max_n)
    if rng.random() < 0.08:
        n, max_d = gen.between(rng, 8, 6 * max_n), max_d + 4
    explicit = rng.random() < 0.5 if split is None else split
    order = rng.permutation(n)
    cut = gen.between(rng, 3, n - 3)
    valid_end = gen.between(rng, cut + 2, n)
    return {
        "data seed": int(rng.integers(2**32)),
        "n": n,
        "d": gen.between(rng, 1, max_d),
        "kind": gen.pick(rng, gen.DATA_KINDS),
        "seed": gen.pick(rng, (0, 0, 1, 2, 17, 12345, int(rng.integers(2**31)))),
        "hyper": scrap(rng),
        "split": [order[:cut].tolist(), order[cut:valid_end].tolist()] if explicit else None,
        "extra": int(rng.integers(2**32)),
    }


def smaller(case):
    hyper = case["hyper"]
    for key, value in (
        ("num_epochs", 1),
        ("num_epochs", 2),
        ("width_per_meas", 1),
        ("num_hidden_layers", 0),
        ("num_hidden_layers", 1),
        ("batch_size", 128),
        ("beta", 1),
        ("mu", 0),
        ("lambda", 0),
        ("lr", 0.005),
    ):
        if hyper[key] != value and (not key.startswith("num") or value < hyper[key]):
            yield {**case, "hyper": {**hyper, key: value}}
    for d in range(1, case["d"]):
        yield {**case, "d": d}
    if case["kind"] != "gauss":
        yield {**case, "kind": "gauss"}
    if case["split"] is not None:
        yield {**case, "split": None}
