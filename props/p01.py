"""P01: the exact search returns a complete, valid edge clique cover."""
import warnings

import numpy as np
from medil.ecc_algorithms import find_clique_min_cover
from vlib import gen, ref
from vlib.core import Sub

RULE = (
    "graphs from the atlas of all graphs with up to 7 vertices, bit by bit, and from 14 "
    "structured random families (up to 12 vertices by default, 18 with a limited search, 30 if sparse, 150 with at most 6 latents and some additional edges), "
    "randomly relabelled, as matrices of 7 dtypes with and without self loops; non-trivial: "
    "at least one edge and at least two rows in the cover"
)
ASSUMPTIONS = ["adjacency matrices are symmetric with entries 0 and 1"]


def check(case):
    adj = gen.to_adj(case)
    graph = gen.array_of(case)
    kwargs = {}
    if "limit" in case:
        kwargs["iteration_max"] = case["limit"]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        cover = find_clique_min_cover(graph, **kwargs)
    ref.valid_cover(adj, cover)
    assert (ref.dependence_graph(cover) == adj).all()
    labels = [case["dtype"], f"diag {case['diag']}"]
    if caught:
        labels.append("search limit reached")
    if (~adj.any(0)).any():
        labels.append("isolated vertices")
    if not adj.any():
        labels.append("no edges")
    if len(cover) >= 6:
        labels.append("at least 6 cliques")
    return bool(adj.any()) and len(cover) > 1, labels


def limited(rng):
    case = gen.make_input(rng, max_n=18, min_n=4, small=False)
    case["limit"] = gen.pick(rng, (1, 2, 3, 5, 10, 30, 100, 300))
    return case


def sparse(rng):
    kinds = ("tree plus", "disjoint", "line graph", "1pc", "bipartite", "windmill")
    case = gen.make_input(rng, max_n=30, min_n=10, small=False, kinds=kinds)
    case["limit"] = 100
    return case


def large(rng):
    case = gen.make_large(rng, extra=0.7)
    case["limit"] = 30
    return case


SUBS = [
    Sub("bits", gen.bits(), check, 400, 8000),
    Sub("valid", gen.graph_inputs(max_n=10), check, 1500, 60000, minimise=gen.smaller_graphs),
    Sub("larger", gen.graph_inputs(max_n=12, min_n=8, small=False), check, 240, 8000,
        minimise=gen.smaller_graphs),
    Sub("limited", gen.seeded(limited), check, 500, 15000, minimise=gen.smaller_graphs),
    Sub("sparse", gen.seeded(sparse), check, 120, 3000, minimise=gen.smaller_graphs),
    Sub("large", gen.seeded(large), check, 36, 1000),
]
