"""P32: results depend on nothing but the arguments, and nothing else is changed."""
import gc
import json
import locale
import logging
import multiprocessing
import os
import pickle
import random
import signal
import subprocess
import sys
import threading
import time
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import sklearn
import torch

from vlib import gen, ncfa, work
from vlib.core import Sub

RULE = (
    "computations from a catalogue of 24 kinds, run under randomly changed process-wide settings (floating-point error handling, print options, warning filters, states of the global random generators, current directory, recursion limit, plot settings, locale, signal handlers), "
    "which must change neither the result nor be changed; and batches of 35 computations in new processes with other hash seeds, optimisation flags, import orders, encodings, time zones and current directories (with modules of the same names); "
    "non-trivial: every case"
)
ASSUMPTIONS = [
    "error handling that raises exceptions isn't set, one thread is used by torch and BLAS",
    "neural models seed numpy's and torch's global generators, and networks are initialised with torch's",
]

NAMES = list(work.WORK)
gc.freeze()  # what's been imported needn't be searched for garbage
MODULES = ["ecc_algorithms", "evaluate", "examples", "graph", "independence_testing", "models", "sample", "vae", "visualize"]


# -- process-wide settings ----------------------------------------------------


def open_files():
    found = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            found[fd] = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            pass
    return found


def filters():
    return [(a, str(b), c.__name__, str(d), e) for a, b, c, d, e in warnings.filters]


STATE = {
    "floating-point error handling": np.geterr,
    "floating-point error function": np.geterrcall,
    "print options": lambda: {k: str(v) for k, v in np.get_printoptions().items()},
    "warning filters": filters,
    "warning output": lambda: (warnings.showwarning, warnings.formatwarning),
    "random's generator": random.getstate,
    "numpy's global generator": lambda: [str(np.asarray(s).tolist()) for s in np.random.get_state()],
    "torch's global generator": lambda: torch.get_rng_state().numpy().tobytes(),
    "torch's dtype": torch.get_default_dtype,
    "torch's gradient mode": torch.is_grad_enabled,
    "torch's anomaly mode": torch.is_anomaly_enabled,
    "torch's determinism": torch.are_deterministic_algorithms_enabled,
    "torch's number of threads": torch.get_num_threads,
    "torch's denormals": lambda: float(torch.tensor(1e-40) * 1),
    "current directory": os.getcwd,
    "environment variables": lambda: dict(os.environ),
    "module search path": lambda: list(sys.path),
    "recursion limit": sys.getrecursionlimit,
    "switch interval": sys.getswitchinterval,
    "locale": lambda: [locale.setlocale(c) for c in (locale.LC_NUMERIC, locale.LC_TIME, locale.LC_CTYPE)],
    "plot settings": lambda: {k: str(v) for k, v in matplotlib.rcParams.items()},
    "plot backend": matplotlib.get_backend,
    "figures": plt.get_fignums,
    "log level": lambda: (logging.getLogger().level, list(logging.getLogger().handlers), logging.root.manager.disable),
    "signal handlers": lambda: [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGCHLD, signal.SIGPIPE)],
    "garbage collection": lambda: (gc.isenabled(), gc.get_threshold()),
    "output": lambda: (sys.stdout, sys.stderr),
    "hooks": lambda: (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile()),
    "scikit-learn's settings": sklearn.get_config,
    "umask": lambda: (lambda old: (os.umask(old), old)[1])(os.umask(0o22)),
    "start method": multiprocessing.get_start_method,
}


def settle(what, before, limit=10):
    """The set of things left over, given time to disappear (processes that end)."""
    until = time.time() + limit
    while True:
        gc.collect()
        left = {k: v for k, v in what().items() if before.get(k) != v}
        if not left or time.time() > until:
            return left
        time.sleep(0.05)


def others():
    found = {f"thread {t.name}": t.ident for t in threading.enumerate()}
    found.update({f"process {p.pid}": p.pid for p in multiprocessing.active_children()})
    return found


def ambient(number):
    """Changes process-wide settings."""
    rng = np.random.default_rng(number)
    np.seterr(**{k: gen.pick(rng, ("ignore", "warn")) for k in ("divide", "over", "under", "invalid")})
    np.set_printoptions(precision=gen.between(rng, 1, 9), threshold=gen.pick(rng, (3, 1000)), suppress=bool(rng.integers(2)))
    warnings.resetwarnings()
    for _ in range(gen.between(rng, 0, 3)):
        warnings.filterwarnings(gen.pick(rng, ("ignore", "always", "once")), message=f"m{rng.integers(9)}")
    if rng.random() < 0.5:
        warnings.simplefilter("ignore")
    random.seed(number)
    np.random.seed(number % 2**32)
    torch.manual_seed(number)
    sys.setrecursionlimit(gen.pick(rng, (1000, 1500, 3000)))
    matplotlib.rcParams.update({"lines.linewidth": float(rng.integers(1, 5)), "font.size": float(rng.integers(8, 13)), "image.cmap": gen.pick(rng, ("gray", "viridis")),
        "figure.figsize": (float(rng.integers(3, 9)), float(rng.integers(3, 9))), "figure.dpi": float(rng.integers(50, 90)), "axes.grid": bool(rng.integers(2)), "axes.facecolor": gen.pick(rng, ("white", "red"))})
    locale.setlocale(locale.LC_ALL, gen.pick(rng, ("C", "C.UTF-8")))
    signal.signal(signal.SIGUSR1, gen.pick(rng, (signal.SIG_DFL, lambda *a: None)))
    logging.getLogger().setLevel(gen.pick(rng, (10, 30, 50)))
    os.environ["MEDIL_NOTHING"] = str(number)
    if rng.random() < 0.3:
        plt.figure()
    gc.enable() if rng.random() < 0.5 else gc.disable()
    gc.set_threshold(int(rng.integers(300, 900)), 10, 10)


def tree():
    return sorted(os.path.join(d, f) for d, _, files in os.walk(".") for f in files)


EXEMPT = {
    "neural": {"numpy's global generator", "torch's global generator"},
    "network": {"torch's global generator"},
}


LAZY = {"warning filters", "environment variables", "hooks", "log level", "module search path", "signal handlers"}


def settings(case):
    name = case["work"]
    # some settings are also changed by modules that are imported when first needed
    ours = {k: f for k, f in STATE.items() if k not in LAZY and k not in EXEMPT.get(name, ())}
    before = {k: f() for k, f in ours.items()}
    with ncfa.scratch():
        plain = work.run(name, work.thaw(case["args"]))
    for key, value in before.items():
        after = ours[key]()
        assert after == value, f"{name} changes the process's {key}: {str(value)[:200]} -> {str(after)[:200]}"
    old = np.geterr(), np.get_printoptions(), sys.getrecursionlimit(), signal.getsignal(signal.SIGUSR1)
    rc = dict(matplotlib.rcParams)
    gc_old = gc.isenabled(), gc.get_threshold()
    level = logging.getLogger().level
    try:
        with warnings.catch_warnings(), ncfa.scratch():
            ambient(case["number"])
            gc.collect()
            before = {k: f() for k, f in STATE.items()}
            files, running = open_files(), others()
            got = work.run(name, work.thaw(case["args"]))
            after = {k: f() for k, f in STATE.items()}
            written = [f for f in tree() if not f.startswith("./trained/")]
            left = settle(open_files, files), settle(others, running)
    finally:
        np.seterr(**old[0])
        np.set_printoptions(**{k: v for k, v in old[1].items() if k != "override_repr"})
        sys.setrecursionlimit(old[2])
        signal.signal(signal.SIGUSR1, old[3])
        with warnings.catch_warnings(action="ignore"):
            matplotlib.rcParams.update(rc)
        (gc.enable if gc_old[0] else gc.disable)()
        gc.set_threshold(*gc_old[1])
        logging.getLogger().setLevel(level)
        os.environ.pop("MEDIL_NOTHING", None)
        plt.close("all")
    assert work.same(got, plain), (
        f"{name} gives {[r.tolist() for r in got]} under other settings instead of {[r.tolist() for r in plain]}"
    )
    for key, value in before.items():
        if key not in EXEMPT.get(name, ()):
            assert after[key] == value, f"{name} changes the process's {key}: {str(value)[:200]} -> {str(after[key])[:200]}"
    assert not written, f"{name} leaves files {written}"
    assert not left[0], f"{name} leaves files open: {left[0]}"
    assert not left[1], f"{name} leaves {left[1]}"
    return True, [name]


# -- new processes ------------------------------------------------------------


def processes(case):
    with ncfa.scratch() as path:
        expected = []
        for item in case["items"]:
            with ncfa.scratch():
                expected.append(work.run(item["work"], work.thaw(item["args"])))
        where = os.path.join(path, case["cwd"])
        os.makedirs(where)
        if case["decoys"]:
            for name in MODULES:
                with open(os.path.join(where, name + ".py"), "w") as f:
                    f.write("raise RuntimeError('a module of the same name in the current directory was imported')\n")
        with open(os.path.join(path, "in.json"), "w") as f:
            json.dump({k: case[k] for k in ("items", "order", "imports")} | {"in path": case["decoys"]}, f)
        env = dict(os.environ, PYTHONHASHSEED=str(case["hash seed"]), TZ=case["tz"], **case["env"])
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        process = subprocess.run(
            [sys.executable, *case["flags"], os.path.join(here, "vlib", "worker.py"), os.path.join(path, "in.json"), os.path.join(path, "out.pkl")],
            cwd=where, env=env, capture_output=True, text=True, errors="replace", timeout=300,
        )
        assert process.returncode == 0, f"process failed: {process.stderr[-1500:]}"
        with open(os.path.join(path, "out.pkl"), "rb") as f:
            got = pickle.load(f)
    for item, a, b in zip(case["items"], got, expected):
        assert not isinstance(a, dict), f"{item['work']} fails in another process: {a}"
        assert work.same(a, b), (
            f"{item['work']} of {json.dumps(item['args'])[:600]} gives {[r.tolist() for r in a]} in another process "
            f"instead of {[r.tolist() for r in b]}"
        )
    return True, [item["work"] for item in case["items"]] + case["flags"]


def settings_spec(rng):
    return {**work.spec(rng, NAMES), "number": int(rng.integers(2**31))}


def processes_spec(rng):
    names = [n for n in NAMES if n not in ("test all pairs", "neural")] * 4 + ["test all pairs", "neural", "neural"]
    num = 35
    return {
        "items": [work.spec(rng, names) for _ in range(num)],
        "order": rng.permutation(num).tolist(),
        "imports": [MODULES[i] for i in rng.permutation(len(MODULES))[: gen.between(rng, 0, 4)]],
        "hash seed": int(rng.integers(1, 2**32)),
        "flags": gen.pick(rng, ([], ["-O"], ["-OO"], ["-W", "ignore"], ["-B"])),
        "env": gen.pick(rng, ({}, {"PYTHONIOENCODING": "ascii:strict", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"})),
        "tz": gen.pick(rng, ("UTC", "Asia/Kolkata", "America/New_York")),
        "cwd": gen.pick(rng, ("a", "with space/b", "deep/er/than/that", "ünï")),
        "decoys": bool(rng.integers(2)),
    }


SUBS = [
    Sub("settings", gen.seeded(settings_spec), settings, 480, 20000, shrink=False),
    Sub("processes", gen.seeded(processes_spec), processes, 12, 600, shrink=False),
]
