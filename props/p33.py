"""P33: interrupted computations leave nothing behind and can be repeated."""
import ast
import functools
import os
import pickle
import signal
import sys

import matplotlib.pyplot as plt
import numpy as np
import torch

from medil.models import DevMedil, GaussianMCM
from vlib import cold, core, gen, ncfa, work
from vlib.core import Sub
from props.p32 import EXEMPT, LAZY, STATE, others, settle

RULE = (
    "pairs of computations of one of 24 kinds in processes in which nothing was computed before, the first of which is interrupted at a line of medil executed in an undisturbed run (every event or every line equally likely) by a KeyboardInterrupt or MemoryError, followed by the second and repetitions of both; "
    "histories of 2 to 6 fits and samples with Gaussian or penalised models, some calls of which are interrupted once or twice; neural fits interrupted, or killed (in a child process) once or twice and repeated with the same model or a new one and directory; "
    "all compared bit for bit with undisturbed runs; non-trivial: an interruption took place"
)
ASSUMPTIONS = [
    "interruptions don't hit clean-up code (finally blocks, exception handlers, context managers' own lines)",
    "objects whose methods change them in place (graphs being reduced) aren't judged when interrupted",
    "the generator's state is restored before repeating",
]
NAMES = list(work.WORK)
ROOT = os.path.join(core.REPO, "medil") + os.sep


@functools.lru_cache(None)
def excluded(path):
    """Lines at which resources aren't protected yet or being cleaned up."""
    with open(path) as f:
        tree = ast.parse(f.read())
    lines = set()

    def block(statements):
        for s in statements:
            lines.update(range(s.lineno, s.end_lineno + 1))

    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            lines.update(range(node.lineno, node.body[0].lineno))
        elif isinstance(node, (ast.Try, ast.TryStar)):
            lines.update(range(node.lineno, node.body[0].lineno))
            block(node.finalbody)
            for handler in node.handlers:
                lines.add(handler.lineno)
                block(handler.body)
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if node.name in ("__enter__", "__exit__", "__del__", "__aenter__", "__aexit__"):
                block([node])
    return frozenset(lines)


class Tracer:
    """Counts or interrupts at lines of medil executed in this process."""

    def __init__(self, at=None, action=None):
        self.at, self.action = at, action
        self.events, self.pid, self.fired = [], os.getpid(), None

    def trace(self, frame, event, arg):
        if os.getpid() != self.pid:
            return None
        path = frame.f_code.co_filename
        if event == "call":
            if not path.startswith(ROOT) or frame.f_code.co_name == "<module>":
                return None
            up = frame.f_back
            while up is not None:
                if up.f_code.co_name in ("__exit__", "__del__", "__enter__", "_find_and_load"):
                    return None
                up = up.f_back
            return self.trace
        if event == "line" and frame.f_lineno not in excluded(path):
            self.events.append((path, frame.f_lineno))
            if self.at is not None and self.fired is None and len(self.events) > self.at:
                self.fired = (path[len(ROOT):], frame.f_lineno)
                self.action()
        return self.trace

    def __enter__(self):
        self.before = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *args):
        sys.settrace(self.before)


def raiser(kind):
    def action():
        raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[kind]("interrupted")

    return action


def position(events, where):
    """The event number to interrupt at."""
    fraction, by_line = where
    if not events:
        return None
    if not by_line:
        return int(fraction * len(events))
    lines = sorted(set(events))
    x = fraction * len(lines)
    line = lines[int(x)]
    at = [i for i, e in enumerate(events) if e == line]
    return at[int((x - int(x)) * len(at))]


def recorded(call):
    with Tracer() as t:
        result = call()
    return result, t.events


def interrupt(call, events, where, kind):
    """Whether the call was interrupted; the exception must reach the caller."""
    at = position(events, where)
    if at is None:
        return None
    with Tracer(at, raiser(kind)) as t:
        try:
            call()
        except (KeyboardInterrupt, MemoryError):
            return t.fired
    assert t.fired is None, f"the {kind} at line {t.fired} doesn't reach the caller"
    return None


def describe(where):
    return f"after an interruption at line {where[1]} of {where[0]}"


def compare(got, expected, what):
    assert work.same(got, expected), (
        f"{what} gives {[np.asarray(r).tolist() for r in got]} instead of {[np.asarray(r).tolist() for r in expected]}"
    )


def computations(case):
    name = case["items"][0]["work"]
    args = [work.thaw(item["args"]) for item in case["items"]]

    def undisturbed():
        first, events = recorded(lambda: work.run(name, args[0]))
        return first, work.run(name, args[1]), events

    # in processes of their own, in which nothing has been computed before
    with ncfa.scratch():
        first, second, events = cold.call(undisturbed)
    return cold.call(lambda: disturbed(case, name, args, first, second, events))


def disturbed(case, name, args, first, second, events):
    ours = {k: f for k, f in STATE.items() if k not in LAZY and k not in EXEMPT.get(name, ()) and k != "figures"}
    fired = None
    with ncfa.scratch():
        old = {k: v.tobytes() for k, v in args[0].items() if isinstance(v, np.ndarray)}
        before, running = {k: f() for k, f in ours.items()}, others()
        for where in case["where"]:
            fired = interrupt(lambda: work.run(name, args[0]), events, where, case["kind"])
            if fired is None:
                break
            for k, v in old.items():
                assert args[0][k].tobytes() == v, f"{name} has changed its argument {k} {describe(fired)}"
            for k, f in ours.items():
                assert f() == before[k], f"the process's {k} has changed {describe(fired)}: {str(before[k])[:200]} -> {str(f())[:200]}"
            left = settle(others, running)
            assert not left, f"{left} left {describe(fired)}"
        plt.close("all")
        if fired is not None:
            for i in case["then"]:
                compare(work.run(name, args[i]), (first, second)[i], f"{name} {describe(fired)}")
    plt.close("all")
    return fired is not None, [name] if fired else ["not interrupted"]


# -- models -------------------------------------------------------------------


def call(model, op):
    """Runs an operation of a history; what it returns and leaves in the model."""
    what = op["op"]
    if what == "sample":
        return [model.sample(op["n"], *op["method"])]
    x = np.array(op["x"])
    if isinstance(model, GaussianMCM):
        model.fit(x)
        return [model.udg, *work.params(model)]
    model.fit(x, op["method"][0], op["lambda"], op["mu"])
    return [model.W_hat, model.D_hat]


def make(case):
    rng = work.generator(case)
    if case["model"] == "penalised":
        return DevMedil(rng=rng, one_pure_child=case["opc"])
    if case["biadj"] is not None:
        return GaussianMCM(biadj=np.array(case["biadj"]), rng=rng)
    return GaussianMCM(rng=rng)


def histories(case):
    def undisturbed():
        alone, expected = make(case), []
        for op in case["history"]:
            expected.append(recorded(lambda: [np.array(r) for r in call(alone, op)]))
        return expected

    expected = cold.call(undisturbed)
    return cold.call(lambda: disturbed_history(case, expected))


def disturbed_history(case, expected):
    model, count = make(case), 0
    for pos, (op, (results, events)) in enumerate(zip(case["history"], expected)):
        for where in op["where"]:
            state = model.rng.bit_generator.state
            fired = interrupt(lambda: call(model, op), events, where, case["kind"])
            if fired is None:
                break
            count += 1
            model.rng.bit_generator.state = state
        if op["where"] and fired is None:
            return False, ["not interrupted"]
        what = f"call {pos} ({op['op']}) {describe(fired) if op['where'] else ''}"
        compare([np.array(r) for r in call(model, op)], results, what)
    return count > 0, [case["model"], f"{min(count, 5)} interruptions"]


def in_child(call, at):
    """Runs the call in a child process killed at the given event."""
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            with Tracer(at, lambda: os._exit(7)):
                call()
        finally:
            os._exit(0)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 7


def neural(case):
    with ncfa.scratch():
        alone, events = recorded(lambda: ncfa.fit(case))
    with ncfa.scratch():
        model, count = ncfa.make(case, "model/"), 0
        x = ncfa.dataset_of(case)
        split = [] if case["split"] is None else [ncfa.split_of(case)]
        if case["fitted"]:
            model.fit(x[::-1].copy(), *split)
        for kind, where in case["attempts"]:
            if kind == "kill":
                done = in_child(lambda: model.fit(x, *split), position(events, where))
            else:
                done = interrupt(lambda: model.fit(x, *split), events, where, kind)
            if not done:
                return False, ["not interrupted"]
            count += 1
        log = os.path.join("model", "training.log")
        lines = len(open(log).read().splitlines()) if os.path.exists(log) else 0
        if case["new"]:
            model = ncfa.make(case, "model/")
        assert model.fit(x, *split) is model
        assert ncfa.same_losses(model, alone), "other losses after an interrupted fit"
        assert ncfa.same_state(ncfa.state(model), ncfa.state(alone)), "other weights after an interrupted fit"
        # what's been written is the complete fit
        saved = torch.load("model/model_recon.pt", weights_only=False)
        state = {k: v.detach().numpy() for k, v in saved.state_dict().items()}
        assert ncfa.same_state(state, ncfa.state(model)), "the saved model isn't that of the complete fit"
        with open("model/loss_recon.pkl", "rb") as f:
            loss = pickle.load(f)
        with open("model/error_recon.pkl", "rb") as f:
            error = pickle.load(f)
        for values, key in zip([*loss, *error], ncfa.LOSSES):
            assert np.array_equal(values, model.loss[key]), f"the saved {key} isn't that of the complete fit"
        text = open(log).read()
        added = text.splitlines()[lines:]
        for value in (*model.loss["elbo_train"], *model.loss["elbo_valid"]):
            assert any(str(value) in line for line in added), "the log lacks an epoch of the complete fit"
    return True, [kind for kind, _ in case["attempts"]] + ["new model" if case["new"] else "same model"]


# -- generation ---------------------------------------------------------------


def some_place(rng):
    return [float(rng.random()), bool(rng.random() < 0.6)]


def computations_spec(rng):
    names = [n for n in NAMES if n not in ("test all pairs", "many graphs", "neural")] * 6 + ["test all pairs", "many graphs", "neural"]
    name = gen.pick(rng, names)
    return {
        "items": [work.spec(rng, [name]) for _ in range(2)],
        "where": [some_place(rng) for _ in range(gen.pick(rng, (1, 1, 1, 2, 3)))],
        "then": gen.pick(rng, ([0], [1, 0], [0, 1], [1, 0, 1])),
        "kind": gen.pick(rng, ("KeyboardInterrupt", "MemoryError")),
    }


def history_spec(rng):
    penalised = rng.random() < 0.2
    d = 2 if penalised else gen.between(rng, 2, 5)
    history = []
    for i in range(gen.between(rng, 2, 4 if penalised else 6)):
        op = {"op": "fit" if i == 0 or rng.random() < 0.4 else "sample", "where": []}
        op["method"] = [gen.pick(rng, ("mle", "lse"))] if penalised else []
        if op["op"] == "fit":
            op["x"] = work.some_data(rng, d=d).tolist()
            op["lambda"], op["mu"] = gen.pick(rng, (0, 0.1)), gen.pick(rng, (0, 0.1))
        else:
            op["n"] = gen.between(rng, 1, 9)
        if rng.random() < 0.6:
            op["where"] = [some_place(rng) for _ in range(gen.pick(rng, (1, 1, 2)))]
        history.append(op)
    if penalised:  # sampling needs a fit by the same method
        done = [op["method"] for op in history if op["op"] == "fit"]
        for op in history:
            if op["op"] == "sample" and op["method"] not in done[: sum(o["op"] == "fit" for o in history[: history.index(op)])]:
                op["method"] = history[0]["method"]
    return {
        "model": "penalised" if penalised else "Gaussian",
        "opc": bool(rng.random() < 0.8),
        "biadj": gen.make_structure(rng, max_latent=3, max_meas=d, min_meas=d) if rng.random() < 0.4 else None,
        "history": history,
        "kind": gen.pick(rng, ("KeyboardInterrupt", "MemoryError")),
        **work.some_rng(rng),
    }


def neural_spec(rng):
    case = ncfa.spec(rng, max_n=30)
    case["attempts"] = [
        [gen.pick(rng, ("KeyboardInterrupt", "MemoryError", "kill", "kill")), some_place(rng)]
        for _ in range(gen.pick(rng, (1, 1, 2)))
    ]
    case["new"] = bool(rng.integers(2))
    case["fitted"] = bool(rng.random() < 0.3)
    return case


def smaller(case):
    for i in range(len(case["history"])):
        if i:
            yield {**case, "history": case["history"][:i] + case["history"][i + 1 :]}
    for i, op in enumerate(case["history"]):
        if op["where"]:
            yield {**case, "history": case["history"][:i] + [{**op, "where": op["where"][1:]}] + case["history"][i + 1 :]}


SUBS = [
    Sub("computations", gen.seeded(computations_spec), computations, 900, 40000, shrink=False),
    Sub("histories", gen.seeded(history_spec), histories, 300, 12000, shrink=False, minimise=smaller),
    Sub("neural", gen.seeded(neural_spec), neural, 120, 5000, shrink=False),
]
