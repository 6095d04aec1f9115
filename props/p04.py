"""P04: the one-pure-child heuristic on arbitrary graphs."""
import itertools

import networkx as nx
import numpy as np

from medil.ecc_algorithms import find_heuristic_1pc
from vlib import gen, ref
from vlib.core import Sub

RULE = (
    "graphs from the atlas, bit by bit, and 14 random families with up to 13 vertices (24 if dense, "
    "140 with few latents, 34 with 300 to 8000 maximal independent sets of which less than 2% are maximum), relabelled, 7 dtypes, with and without self loops; non-trivial: "
    "at least 2 latents and an edge outside the pure children's neighbourhoods (i.e., the graph "
    "violates the one-pure-child assumption) or a measurement with two parents"
)
ASSUMPTIONS = ["independence numbers come from networkx's maximum clique of the complement"]


def check(case):
    adj = gen.to_adj(case)
    n = len(adj)
    biadj = np.asarray(find_heuristic_1pc(gen.array_of(case)))
    assert biadj.ndim == 2 and biadj.shape[1] == n, f"shape {biadj.shape}"
    assert np.isin(biadj, (0, 1)).all(), "entries other than 0 and 1"
    biadj = biadj.astype(bool)

    uncovered = adj & ~ref.dependence_graph(biadj)
    assert not uncovered.any(), f"edges {np.argwhere(np.triu(uncovered)).tolist()} aren't covered"

    complement = nx.complement(nx.from_numpy_array(adj))
    clique, number = nx.max_weight_clique(complement, weight=None)
    assert len(biadj) == number, f"{len(biadj)} latents, independence number {number}"

    for idx, row in enumerate(biadj):
        pure = np.flatnonzero(row & (biadj.sum(0) == 1))
        assert any(
            row[adj[v]].all() for v in pure
        ), f"latent {idx} has no pure child whose neighbours are all its children"

    closed = adj | np.eye(n, dtype=bool)
    cliques = [c for c in closed[[p for r in biadj for p in np.flatnonzero(r & (biadj.sum(0) == 1))]]]
    covered = np.zeros_like(adj)
    for c in cliques:
        covered |= np.outer(c, c)
    violates = (adj & ~covered).any()
    labels = ["outside the pure children's neighbourhoods"] if violates else ["assumption holds"]
    return number >= 2 and bool(violates or (biadj.sum(0) > 1).any()), labels


big = gen.graph_inputs(
    max_n=24, min_n=10, small=False,
    kinds=("1pc", "sparse complement", "near clique", "cliques", "blow-up", "cocktail"),
)
large = gen.seeded(gen.make_large, extra=0.7, high=140)


def many_sets(rng):
    """Sparse graphs with thousands of maximal independent sets, few of them maximum."""
    while True:
        n = gen.between(rng, 22, 34)
        adj = np.triu(rng.random((n, n)) < rng.uniform(0.1, 0.3), 1)
        adj = adj | adj.T
        sets = nx.find_cliques(nx.complement(nx.from_numpy_array(adj)))
        sizes = [len(s) for s in itertools.islice(sets, 8001)]
        if 300 < len(sizes) <= 8000 and np.mean(np.array(sizes) == max(sizes)) < 0.02:
            break
    case = gen.to_case(adj)
    case["dtype"], case["diag"] = gen.pick(rng, gen.DTYPES), bool(rng.integers(2))
    return case


SUBS = [
    Sub("many sets", gen.seeded(many_sets), check, 120, 3000),
    Sub("bits", gen.bits(), check, 400, 8000),
    Sub("any graph", gen.graph_inputs(max_n=10), check, 2400, 100000, minimise=gen.smaller_graphs),
    Sub("larger", gen.graph_inputs(max_n=13, min_n=8, small=False), check, 900, 30000,
        minimise=gen.smaller_graphs),
    Sub("large", large, check, 30, 800),
    Sub("big", big, check, 150, 4000, minimise=gen.smaller_graphs),
]
