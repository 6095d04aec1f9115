"""Generators of graphs, structures and data, and matching shrinkers.

Everything is drawn by Hypothesis; larger objects are pure functions of a
drawn integer (a numpy generator seeded with it) and written out in the
case, so that a replay file doesn't depend on the generator.
"""
import functools

import networkx as nx
import numpy as np
from hypothesis import strategies as st

# Hypothesis draws integers from ranges below 2**24 uniformly and from larger
# ones with a strong preference for small numbers
seeds = st.builds(
    lambda a, b: a * 2**24 + b, st.integers(0, 2**24 - 1), st.integers(0, 2**24 - 1)
)


def seeded(make, *args, **kwargs):
    """Cases made by a function of a numpy generator, seeded by Hypothesis."""
    return seeds.map(lambda s: make(np.random.default_rng(s), *args, **kwargs))


def pick(rng, options):
    return options[rng.integers(len(options))]


def between(rng, low, high):
    return int(rng.integers(low, high + 1))


# -- graphs ------------------------------------------------------------------


@functools.lru_cache(None)
def atlas():
    from networkx.generators.atlas import graph_atlas_g

    return [g for g in graph_atlas_g() if g.number_of_nodes() > 0]


def permuted(rng, adj):
    perm = rng.permutation(len(adj))
    return adj[np.ix_(perm, perm)]


KINDS = (
    "uniform",
    "cliques",
    "sparse complement",
    "multipartite",
    "bipartite",
    "circulant",
    "cocktail",
    "windmill",
    "1pc",
    "tree plus",
    "line graph",
    "disjoint",
    "blow-up",
    "near clique",
)


def build(rng, n, kind):
    """A random graph (Boolean adjacency matrix without self loops)."""
    adj = np.zeros((n, n), bool)
    if n < 2:
        return adj
    if kind == "uniform":
        adj = rng.random((n, n)) < rng.random()
    elif kind == "cliques":
        for _ in range(rng.integers(1, n + 1)):
            c = rng.choice(n, rng.integers(2, max(3, n // 2 + 2)) % n + 1, replace=False)
            adj[np.ix_(c, c)] = True
    elif kind == "sparse complement":
        adj[:] = True
        for _ in range(rng.integers(0, 2 * n)):
            u, v = rng.integers(n, size=2)
            adj[u, v] = adj[v, u] = False
    elif kind == "multipartite":
        part = rng.integers(rng.integers(2, n + 1), size=n)
        adj = part[:, None] != part
    elif kind == "bipartite":
        part = rng.integers(2, size=n)
        adj = (part[:, None] != part) & (rng.random((n, n)) < 0.3 + 0.7 * rng.random())
    elif kind == "circulant":
        for jump in range(1, n // 2 + 1):
            if rng.random() < 0.5 or jump == 1:
                adj[np.arange(n), (np.arange(n) + jump) % n] = True
    elif kind == "cocktail":
        adj[:] = True
        pairs = rng.permutation(n)[: 2 * rng.integers(1, n // 2 + 1)].reshape(-1, 2)
        adj[pairs[:, 0], pairs[:, 1]] = adj[pairs[:, 1], pairs[:, 0]] = False
    elif kind == "windmill":
        hub = rng.integers(n)
        part = rng.integers(rng.integers(1, n + 1), size=n)
        adj = part[:, None] == part
        adj[hub] = adj[:, hub] = True
        adj &= rng.random((n, n)) < 0.95
    elif kind == "1pc":
        biadj = structure(rng, rng.integers(1, n + 1), n, rng.random())
        adj = biadj.T @ biadj
    elif kind == "tree plus":
        for v in range(1, n):
            adj[v, rng.integers(v)] = True
        for _ in range(rng.integers(0, n)):
            adj[tuple(rng.integers(n, size=2))] = True
    elif kind == "line graph":
        m = int(np.ceil(np.sqrt(2 * n))) + 1
        pairs = np.argwhere(np.triu(np.ones((m, m)), 1))
        pairs = pairs[rng.permutation(len(pairs))[:n]]
        adj = (pairs[:, None, :, None] == pairs[None, :, None, :]).any((2, 3))
        adj = np.pad(adj, (0, n - len(adj)))
    elif kind == "disjoint":
        cut = rng.integers(1, n)
        for part in (np.arange(cut), np.arange(cut, n)):
            sub = build(rng, len(part), KINDS[rng.integers(len(KINDS) - 3)])
            adj[np.ix_(part, part)] = sub
    elif kind == "blow-up":  # twins: vertices with equal (closed) neighborhoods
        m = int(rng.integers(2, n + 1))
        base = build(rng, m, KINDS[rng.integers(11)])
        rep = rng.integers(m, size=n)
        adj = base[np.ix_(rep, rep)] | ((rep[:, None] == rep) & (rng.random() < 0.6))
    elif kind == "near clique":
        adj[:] = True
        out = rng.choice(n, rng.integers(0, n // 2 + 1), replace=False)
        adj[out] = rng.random((len(out), n)) < 0.5
    adj = adj | adj.T
    np.fill_diagonal(adj, False)
    return permuted(rng, adj)


def to_case(adj):
    return {"n": len(adj), "edges": np.argwhere(np.triu(adj, 1)).tolist()}


def to_adj(case, dtype=bool, diag=False):
    adj = np.zeros((case["n"], case["n"]), bool)
    for u, v in case["edges"]:
        adj[u, v] = adj[v, u] = True
    if diag:
        np.fill_diagonal(adj, True)
    return adj.astype(dtype)


def make_graph(rng, max_n=10, min_n=1, kinds=KINDS, small=True):
    if small and max_n >= 7 and rng.random() < 0.25:
        adj = nx.to_numpy_array(pick(rng, atlas())).astype(bool)
        if len(adj) >= min_n:
            return to_case(permuted(rng, adj))
    return to_case(build(rng, between(rng, min_n, max_n), pick(rng, kinds)))


DTYPES = ("bool", "int64", "int8", "uint8", "int32", "float64", "float32")


def make_input(rng, **kwargs):
    """A graph together with a way of writing down its adjacency matrix."""
    case = make_graph(rng, **kwargs)
    case["dtype"] = pick(rng, DTYPES)
    case["diag"] = bool(rng.integers(2))
    return case


def graph_inputs(**kwargs):
    return seeded(make_input, **kwargs)


@st.composite
def bits(draw, max_n=7):
    """Graphs edge by edge, so that Hypothesis itself can shrink them."""
    n = draw(st.integers(1, max_n))
    num = n * (n - 1) // 2
    adj = np.zeros((n, n), bool)
    adj[np.triu_indices(n, 1)] = draw(st.lists(st.booleans(), min_size=num, max_size=num))
    return {
        **to_case(adj),
        "dtype": draw(st.sampled_from(DTYPES)),
        "diag": draw(st.booleans()),
    }


def array_of(case):
    return to_adj(case, case.get("dtype", bool), case.get("diag", True))


def smaller_graphs(case):
    """Candidates for shrinking: remove a vertex or an edge, simplify."""
    for v in range(case["n"]):
        if case["n"] > 1:
            edges = [
                [a - (a > v), b - (b > v)] for a, b in case["edges"] if v not in (a, b)
            ]
            yield {**case, "n": case["n"] - 1, "edges": edges}
    for i in range(len(case["edges"])):
        yield {**case, "edges": case["edges"][:i] + case["edges"][i + 1 :]}
    if case.get("dtype", "bool") != "bool":
        yield {**case, "dtype": "bool"}


# -- structures --------------------------------------------------------------


def structure(rng, num_latent, num_meas, density):
    """A one-pure-child structure, at least one parent per measurement."""
    biadj = np.zeros((num_latent, num_meas), bool)
    biadj[:, :num_latent] = np.eye(num_latent)
    rest = rng.random((num_latent, num_meas - num_latent)) < density
    orphans = np.flatnonzero(~rest.any(0))
    rest[rng.integers(num_latent, size=len(orphans)), orphans] = True
    biadj[:, num_latent:] = rest
    return biadj[:, rng.permutation(num_meas)]


def blocks(rng, max_size=16):
    """A structure of two or three latents with blocks of pure and of shared children,
    most of a power of two, so that numbers of edges are multiples of powers of two."""
    num = between(rng, 2, 3)
    sizes = [int(pick(rng, (1, 2, 4, 8, 16, max_size))) for _ in range(num)]
    if rng.random() < 0.5:
        sizes = [max_size] * num
    if rng.random() < 0.2:
        sizes[0] += 1
    cols = [np.eye(num, dtype=bool)[:, i] for i in range(num) for _ in range(sizes[i])]
    for _ in range(between(rng, 1, 2)):
        who = rng.permutation(np.arange(num) < between(rng, 2, num))
        cols += [who] * between(rng, 1, max_size)
    biadj = np.array(cols).T
    return biadj[:, rng.permutation(biadj.shape[1])]


def make_large(rng, extra=0.0, low=60, high=150):
    """A one-pure-child graph with many vertices and few latents, perhaps with some more edges."""
    if rng.random() < 0.4:
        biadj = blocks(rng)
        n = biadj.shape[1]
        extra = 0.2 * extra
    else:
        n = between(rng, low, high)
        biadj = structure(rng, between(rng, 1, 6), n, rng.random() * 0.6)
    adj = biadj.T @ biadj
    if rng.random() < extra:
        for _ in range(between(rng, 1, 3)):
            u, v = rng.integers(n, size=2)
            adj[u, v] = adj[v, u] = True
    np.fill_diagonal(adj, False)
    if rng.random() < 0.2:  # isolated vertices
        lonely = rng.choice(n, between(rng, 1, 3), replace=False)
        adj[lonely] = adj[:, lonely] = False
    case = to_case(adj)
    case["dtype"] = pick(rng, DTYPES)
    case["diag"] = bool(rng.integers(2))
    return case


DENSITIES = (0.0, 0.2, 0.5, 0.8, 1.0)


def make_structure(rng, max_latent=5, max_meas=9, min_meas=1, min_latent=1):
    """One-pure-child structures as lists of rows of 0/1."""
    num_meas = between(rng, max(min_meas, min_latent), max_meas)
    num_latent = between(rng, min_latent, min(max_latent, num_meas))
    return structure(rng, num_latent, num_meas, pick(rng, DENSITIES)).astype(int).tolist()


def make_matrix01(rng, max_rows=5, max_cols=8, min_rows=1, min_cols=1, cols=None):
    """Arbitrary 0/1 matrices as lists of rows."""
    rows = between(rng, min_rows, max_rows)
    cols = between(rng, min_cols, max_cols) if cols is None else cols
    return (rng.random((rows, cols)) < pick(rng, (0.0, 0.3, 0.6, 0.9, 1.0))).astype(int).tolist()


def smaller_biadj(case, key="biadj"):
    """Candidates for shrinking a structure: remove a latent or a measurement."""
    biadj = case[key]
    for i in range(len(biadj)):
        if len(biadj) > 1:
            yield {**case, key: biadj[:i] + biadj[i + 1 :]}
    for j in range(len(biadj[0])):
        if len(biadj[0]) > 1:
            yield {**case, key: [row[:j] + row[j + 1 :] for row in biadj]}


# -- data --------------------------------------------------------------------

FORMS = ("plain", "plain", "fortran", "view", "int64", "int32", "read-only")


def form(x, how):
    """The dataset in another memory layout, or rounded to integers (at least 2 different ones per column)."""
    if how == "fortran":
        return np.asfortranarray(x)
    if how == "view":
        wide = np.zeros((2 * len(x), x.shape[1] + 1))
        wide[::2, 1:] = x
        return wide[::2, 1:]
    if how in ("int64", "int32"):
        spread = np.ptp(x, axis=0)
        x = np.rint((x - x.min(0)) * (40 / np.where(spread > 0, spread, 1))) - 7
        return x.astype(how)
    if how == "read-only":
        x.setflags(write=False)
    return x


DATA_KINDS = ("gauss", "factor", "ties", "heavy", "uniform", "lattice", "copies", "skew")


def data(rng, n, d, kind):
    """Random samples with the given kind of dependence and marginals."""
    x = rng.standard_normal((n, d))
    if kind == "factor":
        k = int(rng.integers(1, d + 1))
        x = rng.standard_normal((n, k)) @ (
            rng.normal(size=(k, d)) * (rng.random((k, d)) < 0.6)
        ) + x * rng.uniform(0.2, 1.5, d)
    elif kind == "ties":
        x = np.round(x * rng.integers(1, 4))
    elif kind == "heavy":
        x = x / np.abs(rng.standard_normal((n, 1))).clip(0.05)
    elif kind == "uniform":
        x = rng.random((n, d)) + rng.random((n, 1)) * rng.random(d)
    elif kind == "lattice":
        x = rng.integers(0, 5, (n, d)).astype(float)
    elif kind == "copies":
        for j in range(1, d):
            if rng.random() < 0.5:
                i = rng.integers(j)
                x[:, j] = x[:, i] * rng.choice([-2, -1, 1, 3]) + rng.normal()
            else:
                i = rng.integers(j)
                x[:, j] += rng.random() * (x[:, i] / max(1, np.abs(x[:, i]).max() / 5)) ** 2
    elif kind == "skew":
        x = np.exp(x + rng.standard_normal((n, 1)))
    return x
