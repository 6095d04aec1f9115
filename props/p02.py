"""P02: the exact search returns a minimum number of cliques."""
import warnings

import networkx as nx
import numpy as np

from medil.ecc_algorithms import find_clique_min_cover
from vlib import gen, ref
from vlib.core import Sub

RULE = (
    "graphs from the atlas of all graphs with up to 7 vertices and from 14 structured random "
    "families with up to 10 vertices, compared with an iterative-deepening reference over "
    "maximal cliques; triangle-free graphs and one-pure-child graphs with up to 24 (some up to 150) vertices, whose optimum is known; disjoint unions of up to 5 graphs; pairs of "
    "labellings; search limits from 1 up; non-trivial: optimum of at least 3 cliques of which one has 3 or "
    "more vertices (triangle-free: at least 3 edges)"
)
ASSUMPTIONS = [
    "the reference's maximal cliques come from networkx",
    "no graph with up to 7 vertices needs more search nodes than the default limit",
]


def run(graph, **kwargs):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        cover = find_clique_min_cover(graph, **kwargs)
    return np.asarray(cover).astype(bool), bool(caught)


def check(case):
    adj = gen.to_adj(case)
    kwargs = {"iteration_max": case["limit"]} if "limit" in case else {}
    cover, limited = run(gen.array_of(case), **kwargs)
    best = ref.min_cover_size(adj)
    labels = [f"optimum {min(best, 8)}"]
    if limited:
        labels.append("search limit reached")
        if "limit" not in case:
            assert case["n"] > 7, "gave up on a small graph"
        ref.valid_cover(adj, cover)
        assert len(cover) >= best
    else:
        assert len(cover) == best, f"{len(cover)} cliques, but {best} suffice"
    return best >= 3 and cover.sum(1).max() >= 3, labels


def labelling(case):
    """The size doesn't depend on the labelling (checked beyond the reference's reach)."""
    adj = gen.to_adj(case)
    cover, limited = run(gen.array_of(case))
    perm = np.random.default_rng(case["perm"]).permutation(len(adj))
    other, other_limited = run(adj[np.ix_(perm, perm)])
    ref.valid_cover(adj[np.ix_(perm, perm)], other)
    if limited or other_limited:
        return False, ["search limit reached"]
    assert len(cover) == len(other), f"{len(cover)} and {len(other)} cliques"
    return len(cover) >= 3, []


def known(case):
    """Triangle-free graphs need one clique per edge, 1pc graphs one per latent."""
    if "biadj" in case:
        adj = ref.dependence_graph(np.array(case["biadj"]))
        best = len(case["biadj"])
    else:
        adj = gen.to_adj(case)
        graph = nx.from_numpy_array(adj)
        best = len(case["edges"]) + nx.number_of_isolates(graph)
        assert not any(nx.triangles(graph).values())
    cover, limited = run(adj.astype(int))
    assert not limited, "gave up on a trivial instance"
    assert len(cover) == best, f"{len(cover)} cliques, but {best} suffice"
    return best >= 3, ["1pc" if "biadj" in case else "triangle-free"]


def with_limit(rng):
    case = gen.make_input(rng, max_n=9, min_n=4, small=False)
    case["limit"] = gen.between(rng, 1, 40)
    return case


def relabelled(rng):
    case = gen.make_input(rng, max_n=12, min_n=8, small=False)
    case["perm"] = int(rng.integers(2**32))
    return case


def dense(rng):
    """Random graphs in which the search has to branch."""
    n = gen.between(rng, 9, 13)
    adj = np.triu(rng.random((n, n)) < rng.uniform(0.5, 0.92), 1)
    return {**gen.to_case(adj | adj.T), "dtype": "int64", "diag": True, "limit": 3000}


def known_optimum(rng):
    if rng.random() < 0.2:
        return {"biadj": gen.blocks(rng).astype(int).tolist()}
    if rng.random() < 0.1:
        d = gen.between(rng, 60, 150)
        return {"biadj": gen.make_structure(rng, max_latent=8, max_meas=d, min_meas=d)}
    if rng.random() < 0.5:
        return {"biadj": gen.make_structure(rng, max_latent=9, max_meas=24, min_meas=3)}
    n = gen.between(rng, 3, 16)
    if rng.random() < 0.4:
        return gen.to_case(gen.build(rng, n, "bipartite"))
    adj = np.zeros((n, n), bool)
    pairs = np.argwhere(np.triu(np.ones((n, n)), 1))
    for u, v in rng.permutation(pairs)[: rng.integers(1, len(pairs) + 1)]:
        if not (adj[u] & adj[v]).any():
            adj[u, v] = adj[v, u] = True
    return gen.to_case(adj)


def union(case):
    """The optimum of a disjoint union is the sum of the optima."""
    parts = [gen.to_adj(part) for part in case["parts"]]
    n = sum(map(len, parts))
    adj, pos = np.zeros((n, n), bool), 0
    for part in parts:
        adj[pos : pos + len(part), pos : pos + len(part)] = part
        pos += len(part)
    perm = np.random.default_rng(case["perm"]).permutation(n)
    adj = adj[np.ix_(perm, perm)]
    cover, limited = run(adj.astype(case["dtype"]), iteration_max=3000)
    ref.valid_cover(adj, cover)
    if limited:
        return False, ["search limit reached"]
    best = sum(ref.min_cover_size(part) for part in parts)
    assert len(cover) == best, f"{len(cover)} cliques, but {best} suffice"
    return best >= 3, [f"{len(parts)} parts"]


def parts(rng):
    return {
        "parts": [gen.make_graph(rng, max_n=7) for _ in range(gen.between(rng, 2, 5))],
        "perm": int(rng.integers(2**32)),
        "dtype": gen.pick(rng, gen.DTYPES),
    }


def fewer(case):
    for i in range(len(case["parts"])):
        if len(case["parts"]) > 1:
            yield {**case, "parts": case["parts"][:i] + case["parts"][i + 1 :]}


SUBS = [
    Sub("bits", gen.bits(), check, 400, 8000),
    Sub("minimum", gen.graph_inputs(max_n=9), check, 1500, 60000, minimise=gen.smaller_graphs),
    Sub("larger", gen.graph_inputs(max_n=11, min_n=8, small=False), check, 240, 12000,
        minimise=gen.smaller_graphs),
    Sub("dense", gen.seeded(dense), check, 1800, 60000, minimise=gen.smaller_graphs),
    Sub("limited", gen.seeded(with_limit), check, 300, 10000, minimise=gen.smaller_graphs),
    Sub("labelling", gen.seeded(relabelled), labelling, 60, 4000, minimise=gen.smaller_graphs),
    Sub("known", gen.seeded(known_optimum), known, 200, 4000),
    Sub("unions", gen.seeded(parts), union, 150, 5000, minimise=fewer),
]
