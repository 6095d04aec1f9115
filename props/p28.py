"""P28: neural training uses exactly its split's standardised observations."""
import numpy as np
from scipy.spatial import cKDTree
import torch
from torch.nn.modules import module as torch_module

from medil.vae import Encoder, VariationalAutoencoder
from vlib import gen, ncfa
from vlib.core import Sub

RULE = (
    "datasets of 8 to 300 (some 5000) observations in different units, layouts and integer or single-precision dtypes, with explicit splits (lists, tuples, index arrays, Boolean masks, slices; partial, overlapping or with repetitions) and without; "
    "every batch that enters the network during the fit is recorded and matched with the dataset's standardised rows; default splits also over 60 seeds; non-trivial: several batches or epochs"
)
ASSUMPTIONS = [
    "the network's forward method is called once per batch, with gradients enabled for training and disabled for validation",
    "standardised observations are matched up to 1e-3 and judged if no two different ones are closer than that",
]


class Recorder:
    """Records what goes into networks and encoders, and whether it's for training."""

    def __init__(self):
        self.seen = {VariationalAutoencoder: [], Encoder: []}

    def __enter__(self):
        def hook(module, args):
            for kind, seen in self.seen.items():
                if isinstance(module, kind) and args:
                    seen.append((torch.is_grad_enabled(), args[0].detach().clone().double().numpy()))

        self.handle = torch_module.register_module_forward_pre_hook(hook)
        return self

    def __exit__(self, *args):
        self.handle.remove()

    def passes(self):
        return self.seen[VariationalAutoencoder] or self.seen[Encoder]


def standardised(x):
    x = x.astype(np.longdouble)
    x = x - x.mean(0)
    return (x / np.sqrt((x**2).mean(0))).astype(float)


class Rows:
    """Recognises standardised observations, up to equal ones."""

    def __init__(self, x, tol=1e-3):
        self.tol = tol
        _, index, self.groups = np.unique(x, axis=0, return_index=True, return_inverse=True)
        self.groups = self.groups.ravel()
        self.tree = cKDTree(standardised(x)[index])
        self.clear = not self.tree.query_pairs(2 * tol, p=np.inf)

    def identify(self, batch):
        dists, best = self.tree.query(batch, p=np.inf)
        assert (dists < self.tol).all(), (
            f"the network is given {batch[dists >= self.tol][:2].tolist()}, which is no standardised observation"
        )
        return best

    def of(self, idcs):
        return sorted(self.groups[idcs].tolist())


def epochs_of(passes):
    """Observations seen in consecutive training and validation passes."""
    runs = []
    for grad, batch in passes:
        if not runs or runs[-1][0] != grad:
            runs.append((grad, []))
        runs[-1][1].append(batch)
    return runs


def dataset_of(case):
    x = ncfa.dataset_of(case)
    if case["unit"] != 1:
        x = x * case["unit"] ** np.arange(-1, x.shape[1] - 1) + case["shift"]
    if case["dtype"] != "float64":
        spread = np.ptp(x, axis=0)
        x = (x - x.min(0)) / spread * 90 - 30
        if case["dtype"] != "float32":
            x = np.rint(x)
        x = x.astype(case["dtype"])
    return gen.form(x, case["form"])


def explicit(case):
    """The split as handed over, and the indices it stands for."""
    parts = [np.array(p) for p in case["split"]]
    n = case["n"]
    how = case["how"]
    if how == "slices":
        cut = len(parts[0])
        return (slice(0, cut), slice(cut, n)), (np.arange(cut), np.arange(cut, n))
    if how == "masks":
        masks = [np.isin(np.arange(n), p) for p in parts]
        return masks, [np.flatnonzero(m) for m in masks]
    rng = np.random.default_rng(case["extra"])
    if how == "repeated":
        parts = [rng.choice(p, len(p) + 3) for p in parts]
    elif how == "overlapping":
        parts = [np.unique(np.append(p, rng.choice(n, 4))) for p in parts]
    elif how == "negative":
        return [p - n for p in parts], parts
    if how == "lists":
        return [p.tolist() for p in parts], parts
    if how == "tuple":
        return tuple(parts), parts
    if how == "int32":
        return [p.astype(np.int32) for p in parts], parts
    return parts, parts


def used(case, split, x, **changes):
    """What the fit trains on and validates with: lists of batches per epoch."""
    model = ncfa.make(case, **changes)
    with Recorder() as rec:
        model.fit(*([x] if split is None else [x, split]))
    return model, epochs_of(rec.passes())


def check(case):
    hyper = case["hyper"]
    x = dataset_of(case)
    if len(np.unique(x[:, 0])) < 2 or (np.ptp(x, axis=0) == 0).any():
        return False, ["constant measurement"]
    rows = Rows(x, case.get("tol", 1e-3))
    if not rows.clear:
        return False, ["observations too close"]
    split, parts = (None, None) if case["split"] is None else explicit(case)
    with ncfa.scratch():
        model, runs = used(case, split, x)
        if split is None:
            again = used({**case, "data seed": case["data seed"]}, split, x, num_epochs=1)[1]
    labels = [case["dtype"], case["form"], "default" if split is None else case["how"]]
    if not runs:
        return False, ["nothing recorded"]
    assert [grad for grad, _ in runs] == [True, False] * hyper["num_epochs"], (
        "epochs don't consist of training followed by validation"
    )
    if parts is None:
        seen = rows.identify(np.vstack(runs[0][1])), rows.identify(np.vstack(runs[1][1]))
        n = case["n"]
        assert abs(len(seen[0]) - 0.7 * n) < 1, f"{len(seen[0])} of {n} observations used for training"
        assert sorted(np.concatenate(seen).tolist()) == rows.of(np.arange(n)), (
            "training and validation together aren't the whole dataset"
        )
        expected = [sorted(s.tolist()) for s in seen]
        second = [sorted(rows.identify(np.vstack(r[1])).tolist()) for r in again]
        assert second == expected, "the same seed gives another split"
    else:
        expected = [rows.of(p) for p in parts]
    for epoch, (grad, batches) in enumerate(runs):
        sizes = [len(b) for b in batches]
        assert max(sizes) <= hyper["batch_size"], f"batches of {sizes}"
        got = sorted(rows.identify(np.vstack(batches)).tolist())
        assert got == expected[1 - grad], (
            f"epoch {epoch // 2} {'trains on' if grad else 'validates with'} {len(got)} observations "
            f"other than the {len(expected[1 - grad])} of the split"
        )
        full = -(-len(got) // hyper["batch_size"])
        assert len(sizes) == full, f"{len(sizes)} batches instead of {full}"
    return len(runs[0][1]) > 1 or hyper["num_epochs"] > 1, labels


def seeds(case):
    """Default splits of different seeds are different and reach every observation."""
    x = ncfa.dataset_of(case)
    rows = Rows(x)
    if not rows.clear or len(np.unique(rows.groups)) < len(x):
        return False, ["observations too close"]
    counts, splits = np.zeros(len(x)), set()
    num = 60
    with ncfa.scratch():
        for seed in range(case["seed"], case["seed"] + num):
            model, runs = used(case, None, x, seed=seed, num_epochs=1, batch_size=999)
            if not runs:
                return False, ["nothing recorded"]
            train = rows.identify(np.vstack(runs[0][1]))
            counts[train] += 1
            splits.add(tuple(sorted(train.tolist())))
    assert len(splits) > num // 4, f"only {len(splits)} different splits from {num} seeds"
    assert (counts > 0).all(), f"observations {np.flatnonzero(counts == 0)} are never used for training"
    assert (counts < num).all(), f"observations {np.flatnonzero(counts == num)} are never used for validation"
    return True, []


def spec(rng):
    case = ncfa.spec(rng)
    case["hyper"]["batch_size"] = gen.pick(rng, (1, 3, 5, 8, 16, 64, 128))
    case["unit"] = gen.pick(rng, (1, 1, 0.01, 100.0))
    case["shift"] = gen.pick(rng, (0, 0, 5.0, -300.0))
    case["dtype"] = gen.pick(rng, ("float64", "float64", "float64", "float32", "int64", "int16", "int8"))
    case["form"] = gen.pick(rng, ("plain", "fortran", "view")) if case["dtype"] == "float64" else "plain"
    case["how"] = gen.pick(
        rng, ("arrays", "lists", "tuple", "int32", "masks", "slices", "repeated", "overlapping", "negative")
    )
    return case


def large_spec(rng):
    case = spec(rng)
    case.update(tol=1e-4, n=gen.between(rng, 500, 5000), d=4, kind="gauss", dtype="float64", unit=1, shift=0)
    case["hyper"].update(num_epochs=1, batch_size=gen.pick(rng, (100, 128, 1000, 9999)))
    if case["split"] is not None:
        order = rng.permutation(case["n"])
        cut, end = sorted(rng.integers(5, case["n"] - 4, 2).tolist())
        case["split"] = [order[:cut].tolist(), order[cut : end + 3].tolist()]
    return case


def seeds_spec(rng):
    case = ncfa.spec(rng, max_d=3, max_n=24, split=False)
    case["n"], case["d"] = min(case["n"], 30), max(case["d"], 2)
    case["kind"] = gen.pick(rng, ("gauss", "factor", "uniform"))
    case["seed"] = int(rng.integers(10**6))
    case["hyper"]["num_hidden_layers"], case["hyper"]["width_per_meas"] = 0, 1
    return case


SUBS = [
    Sub("splits", gen.seeded(spec), check, 600, 24000, shrink=False, minimise=ncfa.smaller),
    Sub("large", gen.seeded(large_spec), check, 48, 1500, shrink=False),
    Sub("seeds", gen.seeded(seeds_spec), seeds, 24, 900, shrink=False),
]
