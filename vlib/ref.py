"""Reference models: slow, obviously correct, independent of the code under test."""
import itertools

import networkx as nx
import numpy as np


def min_cover_size(adj):
    """Number of cliques in a minimum edge clique cover, isolated vertices included."""
    adj = np.asarray(adj, bool)
    graph = nx.from_numpy_array(np.triu(adj, 1))
    edges = [tuple(sorted(e)) for e in graph.edges]
    isolated = sum(1 for _ in nx.isolates(graph))
    size = 0
    while not coverable(graph, edges, size):
        size += 1
    return size + isolated


def coverable(graph, edges, size):
    """Whether at most `size` cliques can cover all edges."""
    index = {e: i for i, e in enumerate(edges)}
    cliques = []
    for c in nx.find_cliques(graph):
        mask = 0
        for e in itertools.combinations(sorted(c), 2):
            mask |= 1 << index[e]
        if mask:
            cliques.append(mask)
    full = (1 << len(edges)) - 1
    containing = [[m for m in cliques if m >> i & 1] for i in range(len(edges))]
    dead = {}

    def search(covered, left):
        if covered == full:
            return True
        if left == 0 or dead.get(covered, -1) >= left:
            return False
        open_edges = [i for i in range(len(edges)) if not covered >> i & 1]
        edge = min(open_edges, key=lambda i: len(containing[i]))
        if any(search(covered | m, left - 1) for m in containing[edge]):
            return True
        dead[covered] = left
        return False

    return search(0, size)


def is_clique(adj, members):
    return all(adj[u, v] for u, v in itertools.combinations(members, 2))


def valid_cover(adj, cover):
    """Raises unless the 0/1 rows of `cover` are an edge clique cover of `adj`
    with exactly one row for each isolated vertex and no empty row."""
    adj = np.asarray(adj, bool).copy()
    np.fill_diagonal(adj, False)
    n = len(adj)
    cover = np.asarray(cover)
    assert cover.ndim == 2 and cover.shape[1] == n, f"shape {cover.shape} for {n} vertices"
    assert np.isin(cover, (0, 1)).all(), "entries other than 0 and 1"
    cover = cover.astype(bool)
    covered = np.zeros((n, n), bool)
    for row in cover:
        members = np.flatnonzero(row)
        assert is_clique(adj, members), f"row {members.tolist()} isn't a clique"
        covered[np.ix_(members, members)] = True
    np.fill_diagonal(covered, False)
    missing = np.argwhere(np.triu(adj & ~covered))
    assert not len(missing), f"edges {missing.tolist()} aren't covered"
    for v in np.flatnonzero(~adj.any(0)):
        assert cover[:, v].sum() == 1, f"isolated vertex {v} is in {cover[:, v].sum()} rows"


def dependence_graph(biadj):
    """Pairs of measurements with a common latent parent."""
    biadj = np.asarray(biadj).astype(bool)
    num = biadj.shape[1]
    adj = np.zeros((num, num), bool)
    for row in biadj:
        for u, v in itertools.permutations(np.flatnonzero(row), 2):
            adj[u, v] = True
    return adj


def rows_as_sets(biadj):
    return sorted(tuple(np.flatnonzero(row).tolist()) for row in np.asarray(biadj))
