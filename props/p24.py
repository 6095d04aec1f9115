"""P24: graph bookkeeping stays consistent under any sequence of reductions."""
import itertools

import numpy as np

from medil.graph import UndirectedDependenceGraph
from vlib import gen, ref
from vlib.core import Sub

RULE = (
    "graphs with 2 to 10 (some up to 16) vertices, 1 in 100 with 30 to 45 (atlas and 14 random families), with up to 12 (30) operations: adding and removing lists of edges and rebuilding the auxiliary structure; "
    "the three reduction rules one by one or exhaustively, covering random cliques, copying and resetting; all attributes are compared with a model after each operation, "
    "and at the end a random clique cover of the uncovered edges is completed; non-trivial: at least 3 operations that change the graph"
)
ASSUMPTIONS = [
    "the auxiliary structure is only defined for graphs with at least one edge, and after reductions only judged for uncovered edges"
]


def closed_common(full, present, u, v):
    """Vertices not yet removed that are equal or adjacent to both u and v."""
    return [
        w
        for w in range(len(full))
        if present[w] and (w == u or full[w, u]) and (w == v or full[w, v])
    ]


def num_edges_in(full, verts):
    return sum(bool(full[a, b]) for a, b in itertools.combinations(verts, 2))


def pairs_of(adj):
    return {(int(u), int(v)) for u, v in np.argwhere(np.triu(adj, 1))}


def check_adj(g, uncovered, present):
    adj = np.asarray(g.adj_matrix)
    n = len(present)
    assert adj.shape == (n, n) and np.isin(adj, (0, 1)).all()
    assert (adj == adj.T).all(), "adjacency matrix isn't symmetric"
    assert (adj.diagonal().astype(bool) == present).all(), (
        f"vertices {np.flatnonzero(adj.diagonal()).tolist()} instead of {np.flatnonzero(present).tolist()}"
    )
    got = pairs_of(adj)
    assert got == uncovered, f"edges {sorted(got)} instead of {sorted(uncovered)}"
    assert g.num_edges == len(uncovered), f"{g.num_edges} edges counted, {len(uncovered)} present"
    assert g.num_vertices == present.sum(), f"{g.num_vertices} vertices counted, {present.sum()} present"


def check_aux(g, full, uncovered, present):
    listed = [int(i) for i in g.extant_edges_idx]
    assert len(set(listed)) == len(listed), "an uncovered edge is listed twice"
    edges = {tuple(int(v) for v in g.get_edge(i)) for i in listed}
    assert edges == uncovered, f"uncovered edges listed: {sorted(edges)} instead of {sorted(uncovered)}"
    for u, v in uncovered:
        idx = g.get_idx((u, v))
        assert tuple(int(w) for w in g.get_edge(idx)) == (u, v), "edge numbering"
        expected = closed_common(full, present, u, v)
        got = np.flatnonzero(g.common_neighbors[idx]).tolist()
        assert got == expected, f"common neighbours {got} of {(u, v)} instead of {expected}"
        count = num_edges_in(full, expected)
        assert g.nbrhood_edge_counts[idx] == count, (
            f"{g.nbrhood_edge_counts[idx]} edges in the neighbourhood of {(u, v)} instead of {count}"
        )


# -- plain graphs ----------------------------------------------------------------


def editing(case):
    adj = gen.to_adj(case, int, diag=True)
    g = UndirectedDependenceGraph(adj.copy())
    n = case["n"]
    edges, present = pairs_of(adj), np.ones(n, bool)
    check_adj(g, edges, present)
    effects, labels = 0, []
    for op, arg in case["ops"]:
        before = set(edges)
        if op == "add":
            edges |= {tuple(sorted(e)) for e in arg}
            g.add_edges(np.array(arg, int).reshape(-1, 2))
        elif op == "remove":
            edges -= {tuple(sorted(e)) for e in arg}
            g.rm_edges(np.array(arg, int).reshape(-1, 2))
        elif op == "aux" and edges:
            g.make_aux()
            full = gen.to_adj({"n": n, "edges": sorted(edges)})
            check_aux(g, full, edges, present)
            assert len(g.common_neighbors) == n * (n - 1) // 2
            numbers = set()
            for u, v in itertools.combinations(range(n), 2):
                idx = g.get_idx((u, v))
                numbers.add(int(idx))
                if (u, v) not in edges:
                    assert not g.common_neighbors[idx].any(), "neighbourhood of a missing edge"
                    assert g.nbrhood_edge_counts[idx] == 0
                else:
                    nbrs = np.flatnonzero(g.nbrs((u, v))).tolist()
                    assert nbrs == closed_common(full, present, u, v)
            assert numbers == set(range(n * (n - 1) // 2)), "edge numbering"
            h = g.reducible_copy()
            check_adj(h, edges, present)
            check_aux(h, full, edges, present)
            labels.append("aux")
        effects += edges != before
        check_adj(g, edges, present)
        if op == "copy" and edges:
            h = UndirectedDependenceGraph(g.adj_matrix.copy()).reducible_copy()  # makes aux itself
            check_aux(h, gen.to_adj({"n": n, "edges": sorted(edges)}), edges, present)
    return effects >= 2 and "aux" in labels, labels


# -- reductions --------------------------------------------------------------------


class Model:
    """What is known about a reducible graph from its definition."""

    def __init__(self, full):
        self.full = full
        self.present = np.ones(len(full), bool)
        self.uncovered = pairs_of(full)

    def copy(self):
        other = Model(self.full)
        other.present, other.uncovered = self.present.copy(), set(self.uncovered)
        return other

    def touched(self):
        return {v for e in self.uncovered for v in e}


def random_clique(rng, model, edge):
    """A random clique of vertices not yet removed containing the edge."""
    clique = list(edge)
    cut = rng.integers(2, len(model.full) + 1)
    for w in rng.permutation(len(model.full)).tolist():
        if len(clique) < cut and model.present[w] and all(w != c and model.full[w, c] for c in clique):
            clique.append(w)
    return sorted(clique)


def as_row(n, members):
    row = np.zeros((1, n), int)
    row[0, members] = 1
    return row


def cover_rows(g):
    return [] if g.the_cover is None else np.asarray(g.the_cover).astype(int).tolist()


def check_state(g, model):
    check_adj(g, model.uncovered, model.present)
    check_aux(g, model.full, model.uncovered, model.present)


def new_cliques(g, model, rows_before, what):
    rows = cover_rows(g)
    assert rows[: len(rows_before)] == rows_before, f"{what} changed the cover's earlier cliques"
    added = [np.flatnonzero(r).tolist() for r in rows[len(rows_before) :]]
    for members in added:
        assert ref.is_clique(model.full, members), f"{what} added {members}, which isn't a clique"
    return added


def apply_rule_1(g, model):
    rows = cover_rows(g)
    g.rule_1()
    assert cover_rows(g) == rows
    keep = model.touched()
    for v in range(len(model.full)):
        model.present[v] &= v in keep


def apply_rule_2(g, model, k):
    unique = {
        tuple(c)
        for c in (closed_common(model.full, model.present, *e) for e in model.uncovered)
        if ref.is_clique(model.full, c)
    }
    g.k_num_cliques = k
    rows = cover_rows(g)
    g.rule_2()
    added = new_cliques(g, model, rows, "rule 2")
    if not unique:
        assert not added and g.k_num_cliques == k, "rule 2 applied although no edge is in a single maximal clique"
        return
    assert len(added) == 1 and tuple(added[0]) in unique, f"rule 2 added {added} instead of one of {unique}"
    assert g.k_num_cliques == k - 1, "rule 2 didn't count the clique"
    model.uncovered -= set(itertools.combinations(added[0], 2))


def apply_rule_3(g, model):
    """Removes at most one vertex' edges; judged by the completed cover."""
    rows = cover_rows(g)
    g.rule_3()
    assert cover_rows(g) == rows, "rule 3 changed the cover"
    left = pairs_of(g.adj_matrix)
    gone = model.uncovered - left
    assert left <= model.uncovered, "rule 3 added edges"
    if gone:
        common = set.intersection(*(set(e) for e in gone))
        assert common, "rule 3 removed several vertices"
        assert any(not any(v in e for e in left) for v in common), "rule 3 left some of the vertex' edges"
    model.uncovered = left


def apply_reduce(g, model, k):
    rows = cover_rows(g)
    g.reduzieren(k)
    added = new_cliques(g, model, rows, "reducing")
    assert g.k_num_cliques == k - len(added), "cliques left are miscounted"
    left = pairs_of(g.adj_matrix)
    assert left <= model.uncovered
    for members in added:
        assert not left & set(itertools.combinations(members, 2)), "covered edges listed as uncovered"
    model.uncovered = left
    present = np.asarray(g.adj_matrix).diagonal().astype(bool)
    assert not (present & ~model.present).any(), "removed vertices are back"
    assert all(present[v] for v in model.touched())
    model.present = present
    if g.k_num_cliques >= 0:  # nothing more to do
        assert present.sum() == len(model.touched()), "vertices without uncovered edges left"
        for e in left:
            c = closed_common(model.full, present, *e)
            assert not ref.is_clique(model.full, c), f"{e} is still in a single maximal clique"


def complete(g, model, rng):
    n = len(model.full)
    rows = [np.array(r).reshape(1, n) for r in cover_rows(g)]
    left = set(model.uncovered)
    while left:
        edge = sorted(left)[rng.integers(len(left))]
        members = random_clique(rng, model, edge)
        rows.append(as_row(n, members))
        left -= set(itertools.combinations(members, 2))
    if not rows:
        return
    cover = np.asarray(g.reconstruct_cover(np.vstack(rows))).astype(bool)
    assert cover.shape[1] == n
    covered = np.zeros((n, n), bool)
    for row in cover:
        members = np.flatnonzero(row).tolist()
        assert ref.is_clique(model.full, members), f"completed cover contains {members}, which isn't a clique"
        covered[np.ix_(members, members)] = True
    missing = pairs_of(model.full & ~covered)
    assert not missing, f"completed cover misses {sorted(missing)}"


def reducing(case):
    n = case["n"]
    full = gen.to_adj(case)
    if not full.any():
        return False, ["no edges"]
    udg = UndirectedDependenceGraph(gen.to_adj(case, int, diag=True))
    g, model = udg.reducible_copy(), Model(full)
    check_state(g, model)
    asleep = []  # originals of copies must not change any more
    effects, labels = 0, []
    for op, number in case["ops"]:
        before = (set(model.uncovered), model.present.copy())
        if op == "rule 1":
            apply_rule_1(g, model)
        elif op == "rule 2":
            apply_rule_2(g, model, number % 7)
        elif op == "rule 3":
            apply_rule_3(g, model)
        elif op == "reduce":
            apply_reduce(g, model, number % 9)
        elif op == "cover" and model.uncovered:
            rng = np.random.default_rng(number)
            edge = sorted(model.uncovered)[rng.integers(len(model.uncovered))]
            members = random_clique(rng, model, edge)
            row = as_row(n, members)
            g.the_cover = row if g.the_cover is None else np.vstack((g.the_cover, row))
            g.cover_edges()
            model.uncovered -= set(itertools.combinations(members, 2))
        elif op == "copy":
            asleep.append((g, model.copy(), cover_rows(g)))
            rows = cover_rows(g)
            g = g.reducible_copy()
            g.the_cover = np.array(rows) if rows else None
        elif op == "reset":
            g.reset()
            model = Model(full)
            assert cover_rows(g) == [], "resetting keeps the cover"
        check_state(g, model)
        if model.uncovered != before[0] or (model.present != before[1]).any():
            effects += 1
            labels.append(op)
    rng = np.random.default_rng(case["seed"])
    complete(g, model, rng)
    for old, old_model, rows in asleep:
        check_state(old, old_model)
        assert cover_rows(old) == rows
        complete(old, old_model, rng)
    assert (np.asarray(udg.adj_matrix) == gen.to_adj(case, int, diag=True)).all(), "the original graph changed"
    check_adj(udg, pairs_of(full), np.ones(n, bool))
    return effects >= 3, labels


# -- generation ----------------------------------------------------------------------

OPS = ("rule 1", "rule 1", "rule 2", "rule 3", "rule 3", "reduce", "cover", "cover", "cover", "copy", "reset")


def reducing_spec(rng):
    big, huge = rng.random() < 0.1, rng.random() < 0.01
    case = gen.make_graph(rng, max_n=45 if huge else 16 if big else 10, min_n=30 if huge else 2, small=not huge)
    ops = OPS if rng.random() < 0.3 else OPS[:-1]
    if rng.random() < 0.6:
        ops = tuple(o for o in ops if o != "reduce")
    case["ops"] = [
        [gen.pick(rng, ops), int(rng.integers(2**32))] for _ in range(gen.between(rng, 1, 30 if big else 12))
    ]
    case["seed"] = int(rng.integers(2**32))
    return case


def editing_spec(rng):
    case = gen.make_graph(rng, max_n=9, min_n=2)
    ops = []
    for _ in range(gen.between(rng, 1, 8)):
        op = gen.pick(rng, ("add", "remove", "aux", "copy"))
        arg = None
        if op in ("add", "remove"):
            arg = [
                rng.choice(case["n"], 2, replace=False).tolist()
                for _ in range(gen.between(rng, 1, 6))
            ]
        ops.append([op, arg])
    case["ops"] = ops + [["aux", None]]
    return case


def smaller(case):
    for i in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1 :]}
    if "seed" in case:
        yield from (c for c in gen.smaller_graphs(case) if c["n"] > 1)


SUBS = [
    Sub("reducing", gen.seeded(reducing_spec), reducing, 3500, 150000, minimise=smaller),
    Sub("editing", gen.seeded(editing_spec), editing, 800, 30000, minimise=smaller),
]
