"""P05: one-pure-child structures are recovered exactly from their dependence graph."""
import numpy as np

from medil.ecc_algorithms import find_clique_min_cover, find_heuristic_1pc
from medil.evaluate import recover_ug
from medil.sample import biadj as random_biadj
from vlib import gen, ref
from vlib.core import Sub

RULE = (
    "one-pure-child structures with up to 9 latents and 20 measurements or 6 and 150 or 3 with blocks of power-of-two sizes (own generator) or from "
    "medil.sample.biadj with up to 25 measurements, columns permuted, dependence graph in 7 "
    "dtypes with or without self loops; non-trivial: at least 2 latents and a measurement with several parents"
)
ASSUMPTIONS = [
    "a one-pure-child structure is the unique minimum edge clique cover of its graph (each "
    "pure child's edges must be covered by the only clique containing it)"
]


def check(case):
    if "biadj" in case:
        biadj = np.array(case["biadj"], bool)
    else:
        biadj = random_biadj(
            case["num_meas"], density=case["density"], num_latent=case["num_latent"],
            rng=np.random.default_rng(case["seed"]),
        )
    graph = np.array(recover_ug(biadj.astype(case["biadj dtype"])))
    graph = (graph != 0)
    expected_graph = ref.dependence_graph(biadj)
    assert (graph == expected_graph).all(), "recover_ug isn't the structure's dependence graph"
    if case["diag"]:
        np.fill_diagonal(graph, True)
    expected = ref.rows_as_sets(biadj)
    num_latent = len(biadj)
    for algorithm in (find_heuristic_1pc, find_clique_min_cover):
        got = np.asarray(algorithm(graph.astype(case["dtype"])))
        assert np.isin(got, (0, 1)).all()
        assert ref.rows_as_sets(got) == expected, (
            f"{algorithm.__name__} gives {ref.rows_as_sets(got)} instead of {expected}"
        )
    labels = [f"{min(num_latent, 6)} latents", case["dtype"], f"diag {case['diag']}"]
    return num_latent >= 2 and (biadj.sum(0) > 1).any().item(), labels


def forms(rng):
    return {
        "dtype": gen.pick(rng, gen.DTYPES),
        "biadj dtype": gen.pick(rng, ("bool", "int64")),
        "diag": bool(rng.integers(2)),
    }


def in_blocks(rng):
    return {"biadj": gen.blocks(rng).astype(int).tolist(), **forms(rng)}


def given_structure(rng, **kwargs):
    return {"biadj": gen.make_structure(rng, **kwargs), **forms(rng)}


def sampled(rng):
    num_meas = gen.between(rng, 2, 25)
    return {
        "num_meas": num_meas,
        "num_latent": gen.between(rng, 1, min(num_meas, 9)),
        "density": gen.pick(rng, gen.DENSITIES),
        "seed": int(rng.integers(2**32)),
        **forms(rng),
    }


def smaller(case):
    """Remove a latent with its children, or a child."""
    if "biadj" in case:
        for candidate in gen.smaller_biadj(case):
            biadj = np.array(candidate["biadj"])
            if biadj.any(0).all() and (biadj[:, biadj.sum(0) == 1]).any(1).all():
                yield candidate


SUBS = [
    Sub("small", gen.seeded(given_structure, max_latent=5, max_meas=9), check, 1200, 50000,
        minimise=smaller),
    Sub("larger", gen.seeded(given_structure, max_latent=9, max_meas=20, min_meas=9), check,
        300, 8000, minimise=smaller),
    Sub("huge", gen.seeded(given_structure, max_latent=6, max_meas=150, min_meas=40), check, 30, 800),
    Sub("blocks", gen.seeded(in_blocks), check, 60, 1500),
    Sub("generated", gen.seeded(sampled), check, 300, 8000),
]
