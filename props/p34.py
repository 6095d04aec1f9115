"""P34: models and graphs can be copied, saved and restored at any time."""
import copy
import io
import os
import pickle
import subprocess
import sys

import numpy as np
import torch

from vlib import gen, history, ncfa, work
from vlib.core import Sub

RULE = (
    "histories of 2 to 10 calls (fitting, sampling, configuring, editing, reducing, training) on generated, Gaussian, penalised and neural models, graphs and their reducible copies, and networks, "
    "in which the object is replaced before some calls by a deep copy or by one pickled (protocols 2 to 5) or saved with torch and restored, the original being used differently or overwritten afterwards; "
    "in part continued in a new process; all results and states compared bit for bit with the same history without replacements; non-trivial: an object in use was replaced"
)
ASSUMPTIONS = ["models have random generators of their own, which belong to their state", "graphs, which hold local functions, are deep-copied but not pickled"]
WAYS = ("deepcopy", "2", "3", "4", "5", "torch")


def restored(model, way):
    if way == "deepcopy":
        return copy.deepcopy(model)
    if way == "torch":
        file = io.BytesIO()
        torch.save(model, file)
        file.seek(0)
        return torch.load(file, weights_only=False)
    return pickle.loads(pickle.dumps(model, int(way)))


def wreck(value, depth=0):
    """Overwrites all arrays and tensors in the object that's been copied."""
    if isinstance(value, np.ndarray):
        if value.flags.writeable and value.dtype != object:
            value[...] = 0
    elif isinstance(value, torch.nn.Module):
        with torch.no_grad():
            for t in [*value.parameters(), *value.buffers()]:
                t.zero_()
    elif isinstance(value, dict):
        for v in value.values():
            wreck(v, depth + 1)
    elif isinstance(value, (list, tuple)):
        for v in value:
            wreck(v, depth + 1)
    elif isinstance(value, np.random.Generator):
        value.random(3)
    elif hasattr(value, "__dict__") and type(value).__module__.startswith("medil"):
        wreck(vars(value), depth + 1)


def compare(got, expected, case, what):
    for i, (a, b) in enumerate(zip(got, expected)):
        op = case["ops"][i]["op"]
        assert work.same(a, b), (
            f"call {i} ({op}) {what} gives {[r.tolist() for r in a]} instead of {[r.tolist() for r in b]}"
        )
    assert len(got) == len(expected)


def check(case):
    with ncfa.scratch():
        expected = history.run(history.make(case), case["ops"])
    count, kept = 0, []
    replace = {int(k): v for k, v in case["replace"].items()}

    def each(model, i):
        nonlocal count
        if i not in replace:
            return model
        way, then = replace[i]
        if case["object"] == "graph":
            way = "deepcopy"  # graphs' edge numberings are local functions
        before = history.state(model)
        other = restored(model, way)
        count += 1
        assert work.same(history.state(model), before), f"{way} of the object changes it"
        assert work.same(history.state(other), before), f"{way} of the object differs from it before call {i}"
        assert type(other) is type(model)
        if then == "wreck":
            wreck(model)
        elif then == "use":  # the original, on which the same call must give the same
            kept.append((i, model))
        elif then == "swap":
            wreck(other)
            return model
        return other

    with ncfa.scratch():
        got = history.run(history.make(case), case["ops"], each)
        compare(got, expected, case, "after copying")
        for i, model in kept:
            rest = history.run(model, case["ops"][i:])
            for j, (a, b) in enumerate(zip(rest, expected[i:])):
                assert work.same(a, b), (
                    f"call {i + j} ({case['ops'][i + j]['op']}) on the original gives {[r.tolist() for r in a]} "
                    f"instead of {[r.tolist() for r in b]} after its copy was used"
                )
    return count > 0, [case["object"]] + [v[0] for v in replace.values()] + [v[1] for v in replace.values()]


def processes(case):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    jobs, expected = [], []
    for item in case["items"]:
        with ncfa.scratch():
            model = history.make(item)
            cut = item["cut"] % len(item["ops"]) if item["ops"] else 0
            texts = []

            def each(model, i):
                if i == cut:
                    texts.append(pickle.dumps(model))
                return model

            results = history.run(model, item["ops"], each)
            if texts:
                jobs.append((texts[0], item["ops"][cut:]))
                expected.append((item, cut, results[cut:]))
    with ncfa.scratch() as path:
        os.mkdir("trained")
        with open("in.pkl", "wb") as f:
            pickle.dump(jobs, f)
        process = subprocess.run(
            [sys.executable, os.path.join(here, "vlib", "resume.py"), os.path.join(path, "in.pkl"), os.path.join(path, "out.pkl")],
            capture_output=True, text=True, errors="replace", timeout=300,
        )
        assert process.returncode == 0, f"process failed: {process.stderr[-1500:]}"
        with open("out.pkl", "rb") as f:
            got = pickle.load(f)
    for rest, (item, cut, wanted) in zip(got, expected):
        assert not isinstance(rest, dict), f"restoring {item['object']} in another process fails: {rest}"
        compare(rest, wanted, {"ops": item["ops"][cut:]}, f"on a restored {item['object']} in another process")
    return bool(expected), [item["object"] for item, _, _ in expected]


def spec(rng):
    case = history.spec(rng)
    num = len(case["ops"])
    case["replace"] = {
        str(i): [gen.pick(rng, WAYS), gen.pick(rng, ("wreck", "use", "swap", "leave"))]
        for i in rng.permutation(num)[: gen.between(rng, 1, 3)].tolist()
        if case["ops"][i]["op"] != "configure"
    }
    return case


def processes_spec(rng):
    items = []
    while len(items) < 25:
        kinds = ("generated", "Gaussian", "penalised", "network") if len(items) % 5 else ("neural",)
        item = history.spec(rng, kinds)
        item["cut"] = int(rng.integers(99))
        items.append(item)
    return {"items": items}


def smaller(case):
    for i in range(len(case["ops"])):
        if case["ops"][i]["op"] in ("fit", "reducible"):
            continue
        yield {
            **case,
            "ops": case["ops"][:i] + case["ops"][i + 1 :],
            "replace": {str(int(k) - (int(k) > i)): v for k, v in case["replace"].items() if int(k) != i},
        }
    for k in case["replace"]:
        yield {**case, "replace": {j: v for j, v in case["replace"].items() if j != k}}


SUBS = [
    Sub("copies", gen.seeded(spec), check, 900, 40000, shrink=False, minimise=smaller),
    Sub("processes", gen.seeded(processes_spec), processes, 6, 300, shrink=False),
]
