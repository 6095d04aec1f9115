"""P07: random Erdos-Renyi structures induce exactly the requested dependence graph."""
import numpy as np
from scipy.stats import binom

from medil.sample import biadj as random_biadj
from vlib import gen, ref
from vlib.core import Sub

RULE = (
    "(num_meas up to 9, up to 70 if sparse (without comparing the size), density in [0, 1] incl. random reals, generator state), the structure compared "
    "with the reference minimum cover of its own dependence graph; edge frequencies over 300 generator "
    "states; rejected arguments; non-trivial: a dependence graph with at least 3 edges that isn't complete"
)
ASSUMPTIONS = ["density is a number in [0, 1]"]


def arguments(case):
    kwargs = {"num_meas": case["num_meas"], "one_pure_child": False}
    if case["density"] != "default":
        kwargs["density"] = case["density"]
    return kwargs


def spec(biadj, case):
    num_meas = case["num_meas"]
    biadj = np.asarray(biadj)
    assert biadj.ndim == 2 and biadj.shape[1] == num_meas, f"shape {biadj.shape}"
    assert np.isin(biadj, (0, 1)).all()
    biadj = biadj.astype(bool)
    assert biadj.any(1).all(), "a latent without children"
    assert biadj.any(0).all(), "a measurement without latent"
    adj = ref.dependence_graph(biadj)
    num_edges = np.triu(adj).sum()
    density = 0.2 if case["density"] == "default" else case["density"]
    pairs = num_meas * (num_meas - 1) // 2
    # as Python and numpy round (ties to even)
    number = {round(density * pairs), round(density * num_meas * (num_meas - 1) / 2)}
    assert num_edges in number, f"{num_edges} edges instead of {density * pairs}"
    return biadj, adj


def check(case):
    rng = np.random.default_rng(case["seed"])
    biadj, adj = spec(random_biadj(**arguments(case), rng=rng), case)
    if case["num_meas"] > 9:
        return True, ["large"]
    best = ref.min_cover_size(adj)
    assert len(biadj) == best, f"{len(biadj)} latents, but {best} suffice"
    edges = np.triu(adj).sum()
    full = case["num_meas"] * (case["num_meas"] - 1) // 2
    labels = [f"{min(best, 8)} latents"]
    if (~adj.any(0)).any():
        labels.append("isolated measurements")
    return bool(3 <= edges < full), labels


def frequency(case):
    rng = np.random.default_rng(case["seed"])
    num_meas, reps = case["num_meas"], 300
    count = np.zeros((num_meas, num_meas), int)
    for _ in range(reps):
        biadj, adj = spec(random_biadj(**arguments(case), rng=rng), case)
        count += adj
    full = num_meas * (num_meas - 1) // 2
    freq = np.triu(adj).sum() / full
    counts = count[np.triu_indices(num_meas, 1)]
    tail = np.minimum(binom.cdf(counts, reps, freq), binom.sf(counts - 1, reps, freq))
    assert tail.min() > 1e-11, f"edge frequencies {(counts / reps).tolist()} instead of {freq}"
    return 0 < freq < 1, []


def rejected(case):
    for num_latent in case["num_latent"]:
        try:
            random_biadj(
                case["num_meas"], density=case["density"], one_pure_child=False,
                num_latent=num_latent, rng=np.random.default_rng(case["seed"]),
            )
        except ValueError:
            continue
        raise AssertionError(f"num_latent={num_latent} accepted")
    return True, []


def base(rng, max_meas=9):
    return {
        "num_meas": gen.between(rng, 1, max_meas),
        "density": gen.pick(rng, ("default", 0, 1, 0.0, 1.0, 0.5, 0.25, 0.75))
        if rng.random() < 0.4
        else float(rng.random()),
        "seed": int(rng.integers(2**32)),
    }


def several(rng):
    case = base(rng, max_meas=6)
    case["num_meas"] = gen.between(rng, 3, 6)
    case["density"] = float(rng.uniform(0.1, 0.9))
    return case


def invalid(rng):
    case = base(rng)
    case["density"] = float(rng.random())
    case["num_latent"] = [1, case["num_meas"], gen.between(rng, 1, 20)]
    return case


def large(rng):
    case = base(rng)
    case["num_meas"] = gen.between(rng, 10, 30) if rng.random() < 0.8 else gen.between(rng, 30, 70)
    case["density"] = float(rng.uniform(0, 2.5 / case["num_meas"]))
    return case


SUBS = [
    Sub("specification", gen.seeded(base), check, 1200, 40000),
    Sub("large", gen.seeded(large), check, 90, 2000),
    Sub("frequency", gen.seeded(several), frequency, 30, 600),
    Sub("rejected", gen.seeded(invalid), rejected, 60, 600),
]
