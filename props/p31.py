"""P31: concurrent computations do not affect each other."""
import sys
import threading

import numpy as np

from vlib import gen, work
from vlib.core import Sub

RULE = (
    "2 to 6 threads, each with 2 to 8 computations from a catalogue of 20 (covers, heuristic, cliques, reductions, distances, tests, generation, fitting, sampling, penalised fits, network evaluation), "
    "half of the time of the same kind in all threads and partly with the very same argument arrays, started together and switched every few microseconds; every result is compared bit for bit with the same computation run alone before; "
    "non-trivial: the threads' computations overlapped in time"
)
ASSUMPTIONS = [
    "neural training (which seeds torch's process-wide generator), process pools and drawing are left out",
    "threads share argument arrays but no generators or models",
]

NAMES = [
    n for n in work.WORK if n not in ("neural", "drawing", "test all pairs")
]


def check(case):
    items = [(item["work"], work.thaw(item["args"])) for item in case["items"]]
    alone = [work.run(name, args) for name, args in items]
    before = [{k: v.tobytes() for k, v in args.items() if isinstance(v, np.ndarray)} for _, args in items]
    barrier = threading.Barrier(len(case["threads"]))
    got, failed, running, overlap = {}, [], set(), []

    def thread(number, todo):
        barrier.wait(30)
        for pos, i in enumerate(todo):
            running.add(number)
            try:
                got[number, pos] = work.run(*items[i])
            except Exception as exc:
                failed.append((items[i][0], exc))
            if len(running) > 1:
                overlap.append(True)
        running.discard(number)

    threads = [
        threading.Thread(target=thread, args=(number, todo), daemon=True)
        for number, todo in enumerate(case["threads"])
    ]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(case["interval"])
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(100)
    finally:
        sys.setswitchinterval(interval)
    assert not any(t.is_alive() for t in threads), "concurrent computations don't return"
    for name, exc in failed:
        raise AssertionError(f"{name} fails only when run concurrently: {type(exc).__name__}: {exc}") from exc
    for number, todo in enumerate(case["threads"]):
        for pos, i in enumerate(todo):
            name = items[i][0]
            assert work.same(got[number, pos], alone[i]), (
                f"{name} gives {[r.tolist() for r in got[number, pos]]} when run concurrently, "
                f"{[r.tolist() for r in alone[i]]} alone"
            )
    for (name, args), old in zip(items, before):
        for k, v in old.items():
            assert args[k].tobytes() == v, f"{name} changed its argument {k}"
    return bool(overlap), [name for name, _ in items]


def spec(rng):
    names = [gen.pick(rng, NAMES)] if rng.random() < 0.5 else NAMES
    items = [work.spec(rng, names) for _ in range(gen.between(rng, 2, 6))]
    return {
        "items": items,
        "threads": [
            rng.integers(len(items), size=gen.between(rng, 2, 8)).tolist()
            for _ in range(gen.between(rng, 2, 6))
        ],
        "interval": gen.pick(rng, (1e-6, 1e-5, 1e-5, 1e-4)),
    }


SUBS = [Sub("threads", gen.seeded(spec), check, 600, 30000, shrink=False)]
