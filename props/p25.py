"""P25: graph export and visualisation represent the given structure faithfully."""
import os
import tempfile

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.patches import FancyArrowPatch

from medil import visualize
from medil.graph import UndirectedDependenceGraph
from vlib import gen, ref
from vlib.core import Sub

RULE = (
    "structures with up to 14 latents and 17 measurements, some up to 40 and 60, graphs with up to 12, some up to 150 vertices, dependence matrices and samples; "
    "exported files are parsed and figures inspected (drawn images, nodes, labels, arrows with their end points); "
    "non-trivial: at least one edge and at least two variables"
)
ASSUMPTIONS = ["figures are inspected under matplotlib's Agg backend after showing them"]


def export(case):
    """The exported file holds the number of vertices, degrees, and edges."""
    adj = gen.array_of(case)
    g = UndirectedDependenceGraph(adj.copy())
    n = case["n"]
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as base:
        name = os.path.join(base, case["name"])
        if case["default"]:
            before = os.getcwd()
            os.chdir(base)
            try:
                g.convert_to_nde()
            finally:
                os.chdir(before)
            name = os.path.join(base, "temp")
        else:
            g.convert_to_nde(name)
        assert os.listdir(base) == [os.path.basename(name) + ".nde"], f"files {os.listdir(base)}"
        with open(name + ".nde") as f:
            lines = [tuple(float(t) for t in line.split()) for line in f.read().splitlines()]
        # exporting again replaces the file
        UndirectedDependenceGraph(np.eye(2, dtype=int)).convert_to_nde(name)
        with open(name + ".nde") as f:
            assert f.readline().split() == ["2"], "exporting again appends"
    assert np.array_equal(g.adj_matrix, adj), "exporting changed the graph"
    assert lines[0] == (n,), f"first line {lines[0]} for {n} vertices"
    assert len(lines) >= n + 1 and all(len(line) == 2 for line in lines[1:])
    degrees, edges = lines[1 : n + 1], lines[n + 1 :]
    assert [v for v, _ in degrees] == list(range(n)), "vertices"
    pairs = [frozenset(e) for e in edges]
    assert len(set(pairs)) == len(pairs), "an edge is listed twice"
    expected = [frozenset((u, v)) for u, v in np.argwhere(np.triu(adj)).tolist()]
    assert set(pairs) == set(expected), f"edges {edges}"
    for v, degree in degrees:
        count = sum(v in e for e in pairs)
        assert degree == count, f"degree {degree} of vertex {v}, which is in {count} edges"
    return bool(case["edges"]), [case["dtype"], f"diag {case['diag']}"]


def show(function, *args, **kwargs):
    """The figure shown by a function."""
    plt.close("all")
    function(*args, **kwargs)
    figs = plt.get_fignums()
    assert figs, "nothing was drawn"
    fig = plt.figure(figs[-1])
    fig.canvas.draw()
    return fig


def close_to(a, b):
    return np.allclose(a, b, atol=1e-6)


def dag(case):
    biadj = np.array(case["biadj"]).astype(case["dtype"])
    before = biadj.copy()
    k, d = biadj.shape
    full = np.asarray(visualize.get_dag_from_biadj(biadj))
    expected = np.zeros((k + d, k + d))
    for l, row in enumerate(case["biadj"]):
        for m, value in enumerate(row):
            expected[l, k + m] = value
    assert full.shape == expected.shape and (full == expected).all(), f"directed graph {full.tolist()}"
    if not case["draw"]:
        return biadj.any().item(), ["graph only"]
    fig = show(visualize.show_dag, biadj)
    assert np.array_equal(biadj, before), "the structure was changed"
    ax = fig.axes[0]
    texts = {t.get_text(): tuple(t.get_position()) for t in ax.texts if t.get_text()}
    where = {}
    for l in range(k):
        where[l] = texts.pop(f"$L_{{{l}}}$")
    for m in range(d):
        where[k + m] = texts.pop(f"$M_{{{m}}}$")
    assert not texts, f"additional labels {texts}"
    places = list(where.values())
    assert all(
        not close_to(a, b) for i, a in enumerate(places) for b in places[:i]
    ), "two variables are drawn in the same place"
    heights = {where[l][1] for l in range(k)}, {where[k + m][1] for m in range(d)}
    assert len(heights[0]) == len(heights[1]) == 1 and min(heights[0]) > max(heights[1])
    # nodes
    dots = [tuple(o) for c in ax.collections for o in np.asarray(c.get_offsets()).tolist()]
    for v, place in where.items():
        assert any(close_to(place, dot) for dot in dots), f"no node for variable {v}"
    for dot in dots:
        assert any(close_to(place, dot) for place in places), "a node without label"
    # arrows: their unclipped end points are nodes
    arrows = set()
    for patch in ax.patches:
        if isinstance(patch, FancyArrowPatch):
            ends = patch._posA_posB
            if ends is None:
                continue
            start, end = (
                [v for v, place in where.items() if close_to(place, point)] for point in ends
            )
            assert start and end, "an arrow doesn't end at nodes"
            arrows.add((start[0], end[0]))
    wanted = {(l, k + m) for l in range(k) for m in range(d) if case["biadj"][l][m]}
    assert arrows == wanted, f"arrows {sorted(arrows)} instead of {sorted(wanted)}"
    for v in where:
        x, y = where[v]
        assert ax.get_xlim()[0] <= x <= ax.get_xlim()[1] and ax.get_ylim()[0] <= y <= ax.get_ylim()[1]
    plt.close("all")
    return biadj.any().item(), ["drawn"]


def ticks(ax, d, label):
    got = [t.get_text() for t in ax.get_xticklabels()], [t.get_text() for t in ax.get_yticklabels()]
    want = [label(i + 1) for i in range(d)]
    assert got == (want, want), f"tick labels {got}"
    assert list(ax.get_xticks()) == list(ax.get_yticks()) == list(range(d))


def image(ax, expected):
    assert len(ax.images) == 1, f"{len(ax.images)} images"
    got = np.ma.getdata(ax.images[0].get_array()).astype(float)
    assert got.shape == expected.shape and np.allclose(got, expected), (
        f"drawn {got.tolist()} instead of {np.asarray(expected, float).tolist()}"
    )
    assert ax.images[0].origin == "upper"


def matrices(case):
    biadj = np.array(case["biadj"]).astype(case["dtype"])
    d = biadj.shape[1]
    fig = show(visualize.show_obs_adj_mat, biadj)
    image(fig.axes[0], ref.dependence_graph(biadj).astype(float))
    ticks(fig.axes[0], d, str)
    assert np.array_equal(biadj, np.array(case["biadj"]).astype(case["dtype"]))
    # dependence matrices
    rng = np.random.default_rng(case["seed"])
    values = rng.random((d, d)).round(3)
    if case["symmetric"]:
        values = (values + values.T) / 2
    kwargs = {} if case["thresh"] is None else {"thresh": case["thresh"]}
    if case["print"]:
        kwargs["print_val"] = True
    before = values.copy()
    fig = show(visualize.show_obs_dcor_mat, values, **kwargs)
    assert np.array_equal(values, before)
    shown = values if case["thresh"] is None else (values > case["thresh"]).astype(float)
    image(fig.axes[0], shown)
    ticks(fig.axes[0], d, lambda i: f"X{i}")
    assert tuple(fig.axes[0].images[0].get_clim()) == (0, 1)
    assert len(fig.axes) == 2, "no colour bar"
    printed = {}
    for t in fig.axes[0].texts:
        printed[tuple(round(p) for p in t.get_position())] = float(t.get_text())
    if case["print"]:
        assert len(printed) == d * d, f"{len(printed)} values printed"
        for (x, y), value in printed.items():
            assert abs(value - shown[y, x]) <= 0.00501, f"{value} printed at row {y}, column {x}"
    else:
        assert not printed
    plt.close("all")
    return d > 1, [f"threshold {case['thresh']}", f"print {case['print']}"]


def pairwise(case):
    rng = np.random.default_rng(case["seed"])
    n, d = case["n"], case["d"]
    x = gen.data(rng, n, d, case["kind"])
    const = np.ptp(x[:1000], axis=0) == 0
    x[:, const] = rng.standard_normal((n, const.sum()))
    before = x.copy()
    kwargs = {} if case["color"] is None else {"color": case["color"]}
    fig = show(visualize.show_pairwise_plot, x, **kwargs)
    assert np.array_equal(x, before), "the sample was changed"
    seen = set()
    expected = x[:1000]
    for ax in fig.axes:
        for coll in ax.collections:
            points = np.asarray(coll.get_offsets())
            if len(points) != len(expected):
                continue
            for i in range(d):
                for j in range(i):
                    if np.allclose(points, expected[:, [j, i]]):
                        seen.add((j, i))
    wanted = {(j, i) for i in range(d) for j in range(i)}
    assert seen == wanted, f"pairs {sorted(seen)} plotted instead of {sorted(wanted)}"
    labels = {ax.get_xlabel() for ax in fig.axes} | {ax.get_ylabel() for ax in fig.axes}
    assert {f"X{i + 1}" for i in range(d)} <= labels, f"labels {labels}"
    plt.close("all")
    return d > 1, ["more than 1000 rows" if n > 1000 else "all rows"]


def export_spec(rng):
    if rng.random() < 0.02:
        case = gen.make_large(rng, extra=0.7)
    else:
        case = gen.make_input(rng, max_n=12)
    case["name"] = gen.pick(rng, ("g", "graph.1", "a b", "temp", "x.nde"))
    case["default"] = bool(rng.random() < 0.2)
    return case


def structure_spec(rng):
    if rng.random() < 0.5:
        biadj = gen.make_structure(rng, max_latent=6, max_meas=9)
    else:
        biadj = gen.make_matrix01(rng, max_rows=6, max_cols=9)
    if rng.random() < 0.2:  # two-digit labels
        biadj = gen.make_structure(rng, max_latent=14, max_meas=17, min_meas=10)
    if rng.random() < 0.03:
        biadj = gen.make_structure(rng, max_latent=40, max_meas=60, min_meas=30)
    return {
        "biadj": biadj,
        "dtype": gen.pick(rng, ("bool", "int64", "float64", "int8")),
        "draw": bool(rng.random() < 0.4),
        "seed": int(rng.integers(2**32)),
        "thresh": gen.pick(rng, (None, None, 0.2, 0.5, 0.8, 0, 1)),
        "print": bool(rng.integers(2)),
        "symmetric": bool(rng.random() < 0.3),
    }


def sample_spec(rng):
    return {
        "seed": int(rng.integers(2**32)),
        "n": gen.pick(rng, (5, 20, 60, 1000, 1001, 1400)),
        "d": gen.between(rng, 1, 4),
        "kind": gen.pick(rng, ("gauss", "factor", "uniform", "ties")),
        "color": gen.pick(rng, (None, "C1", "k")),
    }


SUBS = [
    Sub("export", gen.seeded(export_spec), export, 900, 40000, minimise=gen.smaller_graphs),
    Sub("dag", gen.seeded(structure_spec), dag, 240, 9000, minimise=gen.smaller_biadj),
    Sub("matrices", gen.seeded(structure_spec), matrices, 120, 5000, minimise=gen.smaller_biadj),
    Sub("pairwise", gen.seeded(sample_spec), pairwise, 24, 900),
]
