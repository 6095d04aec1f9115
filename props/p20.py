"""P20: neural model training artefacts are complete, contained and reloadable."""
import os
import pickle
import re

import numpy as np
import torch

from vlib import gen, ncfa
from vlib.core import Sub

RULE = (
    "datasets, hyperparameters and splits as for P18, output paths relative or absolute, nested, existing or not, "
    "with or without trailing slash, with spaces, dots and non-ASCII characters; one to three fits by one or two models with the same or sibling directories, quiet or verbose; "
    "all files below the scratch directory are compared before and after; non-trivial: at least two epochs or two fits"
)
ASSUMPTIONS = ["the output path's parent directory exists"]

NAMES = ("out", "out.d", "a b", "mödel", "training.log", "trained_ncfa", "x-1", "..d", "out.pt", "%s", "loss")


def tree():
    """All files below the current directory with their contents."""
    files = {}
    for base, dirs, names in os.walk("."):
        for name in names:
            with open(os.path.join(base, name), "rb") as f:
                files[os.path.normpath(os.path.join(base, name))] = f.read()
        for name in dirs:
            files.setdefault(os.path.normpath(os.path.join(base, name)) + "/", b"")
    return files


NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")


def logged(text, values, what, start=0):
    """The values appear in the log, one after another."""
    lines = [[float(t) for t in NUMBER.findall(line)] for line in text.splitlines()]
    pos = start
    for epoch, value in enumerate(values):
        while pos < len(lines) and not any(abs(v - value) <= 1e-5 * abs(value) + 1e-9 for v in lines[pos]):
            pos += 1
        assert pos < len(lines), f"{what} of epoch {epoch} ({value}) isn't in the log"
        pos += 1


def artefacts(model, where, case, log_before):
    epochs = case["hyper"]["num_epochs"]
    with open(os.path.join(where, "loss_recon.pkl"), "rb") as f:
        loss = pickle.load(f)
    with open(os.path.join(where, "error_recon.pkl"), "rb") as f:
        error = pickle.load(f)
    for kept, saved, name in ((loss, ("elbo_train", "elbo_valid"), "losses"), (error, ("recon_train", "recon_valid"), "errors")):
        assert len(kept) == 2
        for values, key in zip(kept, saved):
            assert len(values) == epochs, f"{len(values)} entries for {epochs} epochs in {name}"
            assert np.array_equal(values, model.loss[key]), f"saved {key} differ from the model's"
            assert np.isfinite(values).all()
    reloaded = torch.load(os.path.join(where, "model_recon.pt"), weights_only=False)
    x = torch.tensor(np.random.default_rng(case["extra"]).normal(size=(6, case["d"])), dtype=torch.float32)
    fitted = model.parameters.vae
    modes = fitted.training, reloaded.training
    fitted.eval(), reloaded.eval()
    with torch.no_grad():
        for a, b in zip(fitted(x), reloaded(x)):
            assert torch.equal(a, b), "the reloaded model has other outputs"
    fitted.train(modes[0]), reloaded.train(modes[1])
    a, b = fitted.state_dict(), reloaded.state_dict()
    assert a.keys() == b.keys() and all(torch.equal(a[k], b[k]) for k in a), "the reloaded model has other weights"
    with open(os.path.join(where, "training.log"), encoding="utf-8") as f:
        text = f.read()
    if text.startswith(log_before):  # appended to
        text = text[len(log_before) :]
    logged(text, model.loss["elbo_train"], "training loss")
    logged(text, model.loss["elbo_valid"], "validation loss")


def read_log(where):
    path = os.path.join(where, "training.log")
    if not os.path.isfile(path):
        return ""
    with open(path, encoding="utf-8") as f:
        return f.read()


def check(case):
    with ncfa.scratch() as base:
        os.makedirs("parent/dir")
        os.makedirs("sibling")
        with open("parent/bystander.txt", "w") as f:
            f.write("keep")
        fitted = []
        for step in case["fits"]:
            where = os.path.normpath(os.path.join(step["parent"], step["name"]))
            path = where + ("/" if step["slash"] else "")
            if step["absolute"]:
                path = os.path.join(base, path)
            if step["exists"] and not os.path.exists(where):
                os.mkdir(where)
            before = tree()
            log_before = read_log(where)
            if step["again"] and fitted:
                model, where, _, args = fitted[-1]
                log_before = read_log(where)
                x = ncfa.dataset_of({**args, "data seed": args["data seed"] + 1})
                split = [] if args["split"] is None else [ncfa.split_of(args)]
                model.fit(x, *split)
            else:
                args = step["case"]
                model = ncfa.fit(args, path=path)
            after = tree()
            changed = {
                name for name in before.keys() | after.keys() if before.get(name) != after.get(name)
            }
            outside = {
                name for name in changed if name != where + "/" and not name.startswith(where + "/")
            }
            assert not outside, f"files outside of {path!r} changed: {sorted(outside)}"
            for name in ("model_recon.pt", "loss_recon.pkl", "error_recon.pkl", "training.log"):
                assert os.path.join(where, name) in after, f"{name} wasn't written to {path!r}"
            artefacts(model, where, args, log_before)
            fitted.append((model, where, path, args))
        # the files of the last model fitted to each directory are still its own
        last = {where: (model, args) for model, where, _, args in fitted}
        for where, (model, args) in last.items():
            artefacts(model, where, args, "")
    return len(case["fits"]) > 1 or case["fits"][0]["case"]["hyper"]["num_epochs"] > 1, [
        label
        for step in case["fits"]
        for label in (
            ("slash" if step["slash"] else "no slash"),
            ("absolute" if step["absolute"] else "relative"),
            ("fitted again" if step["again"] else "new model"),
            ("verbose" if step["case"]["verbose"] else "quiet"),
        )
    ]


def spec(rng):
    names = [gen.pick(rng, NAMES) for _ in range(2)]
    fits = []
    for _ in range(gen.pick(rng, (1, 1, 2, 3))):
        case = ncfa.spec(rng, max_n=30)
        case["verbose"] = bool(rng.random() < 0.3)
        fits.append(
            {
                "case": case,
                "parent": gen.pick(rng, (".", ".", "parent", "parent/dir")),
                "name": gen.pick(rng, names),
                "slash": bool(rng.integers(2)),
                "absolute": bool(rng.random() < 0.3),
                "exists": bool(rng.random() < 0.3),
                "again": bool(rng.random() < 0.4),
            }
        )
    fits[0]["again"] = False
    return {"fits": fits}


def smaller(case):
    fits = case["fits"]
    for i in range(len(fits)):
        if len(fits) > 1 and not (i == 0 and fits[1]["again"]):
            yield {"fits": fits[:i] + fits[i + 1 :]}
    for i, step in enumerate(fits):
        for key in ("slash", "absolute", "exists", "again"):
            if step[key]:
                yield {"fits": fits[:i] + [{**step, key: False}] + fits[i + 1 :]}
        for inner in ncfa.smaller(step["case"]):
            yield {"fits": fits[:i] + [{**step, "case": inner}] + fits[i + 1 :]}


def long_spec(rng):
    """Many epochs."""
    case = spec(rng)
    step = case["fits"][0]
    step["case"] = ncfa.spec(rng, max_n=16, max_d=2)
    step["case"]["hyper"].update(
        num_epochs=gen.between(rng, 60, 260), batch_size=128, width_per_meas=1, lr=0.005
    )
    step["case"]["verbose"] = bool(rng.integers(2))
    return {"fits": [step]}


SUBS = [
    Sub("fits", gen.seeded(spec), check, 300, 12000, shrink=False, minimise=smaller),
    Sub("epochs", gen.seeded(long_spec), check, 18, 600, shrink=False, minimise=smaller),
]
