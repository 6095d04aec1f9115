"""P03: maximal clique enumeration is sound, complete and duplicate-free."""
import networkx as nx
import numpy as np
from hypothesis import strategies as st

from medil.ecc_algorithms import max_cliques
from vlib import gen
from vlib.core import Sub

RULE = (
    "graphs with up to 7 vertices (atlas, bit by bit), up to 13 (14 random families) and up to "
    "40 (sparse families) and 150 (few latents), relabelled, 7 dtypes, with and without self loops; compared with a "
    "brute-force enumeration of all vertex subsets (n <= 10) and with networkx; also consumed "
    "step by step while another enumeration runs; non-trivial: at least 3 maximal cliques that overlap"
)
ASSUMPTIONS = ["networkx enumerates maximal cliques correctly for graphs with more than 10 vertices"]


def brute(adj):
    """All maximal cliques by looking at every vertex subset."""
    n = len(adj)
    nbrs = [sum(1 << v for v in np.flatnonzero(adj[u])) for u in range(n)]
    found = set()
    for s in range(1, 1 << n):
        common, inner, m = (1 << n) - 1, True, s
        while m:
            u = (m & -m).bit_length() - 1
            m &= m - 1
            common &= nbrs[u]
            if s & ~(nbrs[u] | 1 << u):
                inner = False
                break
        if inner and not common & ~s:
            found.add(tuple(v for v in range(n) if s >> v & 1))
    return found


def normalise(cliques):
    return [tuple(sorted(int(v) for v in c)) for c in cliques]


def check(case):
    adj = gen.to_adj(case)
    got = normalise(max_cliques(gen.array_of(case)))
    if case["n"] <= 8:
        expected = brute(adj)
    else:
        expected = set(normalise(nx.find_cliques(nx.from_numpy_array(adj))))
    assert all(len(set(c)) == len(c) for c in got), "a vertex is repeated in a clique"
    assert len(set(got)) == len(got), "a clique is repeated"
    extra, missing = set(got) - expected, expected - set(got)
    assert not extra, f"not maximal cliques: {sorted(extra)[:5]}"
    assert not missing, f"missing: {sorted(missing)[:5]}"
    labels = [case["dtype"], f"diag {case['diag']}"]
    if (~adj.any(0)).any():
        labels.append("isolated vertices")
    if len(got) > 20:
        labels.append("more than 20 cliques")
    overlap = sum(map(len, got)) > case["n"]
    return len(got) >= 3 and overlap, labels


def interleaved(case):
    """Lazily consumed, interleaved enumerations don't disturb each other, and
    the cliques handed out earlier stay as they were."""
    graphs = [gen.array_of(case["a"]), gen.array_of(case["b"])]
    gens = [max_cliques(g) for g in graphs]
    out, copies, alive = [[], []], [[], []], [True, True]
    for turn in case["turns"] + [0, 1] * 2000:
        if not any(alive):
            break
        if not alive[turn]:
            continue
        try:
            clique = next(gens[turn])
        except StopIteration:
            alive[turn] = False
            continue
        out[turn].append(clique)
        copies[turn].append(list(clique))
    for i, key in enumerate("ab"):
        assert [list(c) for c in out[i]] == copies[i], "an earlier clique was changed"
        adj = gen.to_adj(case[key])
        expected = sorted(normalise(nx.find_cliques(nx.from_numpy_array(adj))))
        assert sorted(normalise(out[i])) == expected
    return min(len(o) for o in out) >= 3, []


def empty(case):
    assert list(max_cliques(np.zeros((0, 0), case["dtype"]))) == []
    return True, []


two = st.fixed_dictionaries(
    {
        "a": gen.bits(),
        "b": gen.graph_inputs(max_n=7),
        "turns": st.lists(st.integers(0, 1), max_size=12),
    }
)
sparse = gen.graph_inputs(
    max_n=40, min_n=12, small=False,
    kinds=("tree plus", "disjoint", "line graph", "cliques", "windmill", "1pc", "circulant"),
)

large = gen.seeded(gen.make_large, extra=0.7)

SUBS = [
    Sub("bits", gen.bits(), check, 400, 8000),
    Sub("small", gen.graph_inputs(max_n=8), check, 2400, 100000, minimise=gen.smaller_graphs),
    Sub("larger", gen.graph_inputs(max_n=13, min_n=8, small=False), check, 1200, 40000,
        minimise=gen.smaller_graphs),
    Sub("sparse", sparse, check, 300, 8000, minimise=gen.smaller_graphs),
    Sub("large", large, check, 60, 1500),
    Sub("interleaved", two, interleaved, 400, 8000),
    Sub("empty", st.fixed_dictionaries({"dtype": st.sampled_from(gen.DTYPES)}), empty, 6, 6),
]
