"""P16: structural distances compare exactly the induced graphs."""
import numpy as np

from medil.evaluate import recover_ug, sfd
from vlib import gen
from vlib.core import Sub

RULE = (
    "pairs and triples of arbitrary 0/1 biadjacency matrices and one-pure-child structures with 1 to 7 latents each over the same 1 to 12 measurements "
    "(also related ones: equal, reordered latents, one edge changed, latent added), 7 dtypes, C or Fortran order or read-only, "
    "pairs with up to 300 latents, pairs with up to 150 measurements and 1000 latents, compared with distances counted pair by pair of measurements, and the laws of a metric; non-trivial: different structures with at least two measurements"
)
ASSUMPTIONS = ["float matrices hold only zeros and ones"]


def expected(pred, true):
    """Both distances, counted with Python integers."""
    d = len(pred[0])

    def common(biadj, i, j):
        return sum(row[i] and row[j] for row in biadj)

    squared = hamming = 0
    for i in range(d):
        for j in range(d):
            a, b = common(pred, i, j), common(true, i, j)
            squared += (a - b) ** 2
            if i < j:
                hamming += bool(a) != bool(b)
    return squared, hamming


def array(biadj, how):
    x = np.array(biadj).astype(how["dtype"])
    if how["layout"] == "F":
        x = np.asfortranarray(x)
    elif how["layout"] == "read-only":
        x.setflags(write=False)
    return x


def distance(pred, true):
    a, b = pred.copy(), true.copy()
    result = sfd(pred, true)
    assert np.array_equal(pred, a) and np.array_equal(true, b), "the structures were changed"
    squared, hamming = result
    return int(squared), int(hamming)


def check(case):
    pred, true = array(case["a"], case["how a"]), array(case["b"], case["how b"])
    got = distance(pred, true)
    want = expected(case["a"], case["b"])
    assert got == want, f"{got} instead of {want}"
    ug = np.asarray(recover_ug(pred))
    d = len(case["a"][0])
    want = [[i != j and any(r[i] and r[j] for r in case["a"]) for j in range(d)] for i in range(d)]
    assert ug.shape == (d, d) and (ug.astype(bool) == np.array(want)).all(), f"graph {ug.tolist()}"
    assert np.array_equal(pred, np.array(case["a"]).astype(pred.dtype))
    return case["a"] != case["b"] and d > 1, [
        pred.dtype.name,
        true.dtype.name,
        case["relation"],
        "same latents" if len(case["a"]) == len(case["b"]) else "different latents",
    ]


def laws(case):
    rng = np.random.default_rng(case["seed"])
    a, b, c = (array(case[k], case[f"how {k}"]) for k in "abc")
    d_ab, d_ba = distance(a, b), distance(b, a)
    assert d_ab == d_ba, f"not symmetric: {d_ab}, {d_ba}"
    assert distance(a, a) == (0, 0), "not zero between equal structures"
    assert distance(a, a[rng.permutation(len(a))]) == (0, 0), "latents' order matters"
    perm = rng.permutation(a.shape[1])
    assert distance(a[:, perm], b[:, perm]) == d_ab, "measurements' order matters"
    assert distance(a[rng.permutation(len(a))], b[rng.permutation(len(b))]) == d_ab
    d_bc, d_ac = distance(b, c), distance(a, c)
    for i, power in ((0, 0.5), (1, 1)):
        assert d_ac[i] ** power <= d_ab[i] ** power + d_bc[i] ** power + 1e-9, "triangle inequality"
    same = np.array_equal(
        a.astype(int).T @ a.astype(int), b.astype(int).T @ b.astype(int)
    )
    assert (d_ab[0] == 0) == same
    for dtype in gen.DTYPES:
        assert distance(a.astype(dtype), b) == d_ab, f"dtype {dtype} matters"
        assert distance(a, b.astype(dtype)) == d_ab, f"dtype {dtype} matters"
    return not same, []


def make(rng, cols):
    if rng.random() < 0.5:
        return gen.make_structure(rng, max_latent=7, max_meas=cols, min_meas=cols)
    return gen.make_matrix01(rng, max_rows=7, cols=cols)


def related(rng, biadj):
    """A structure close to the given one."""
    kind = gen.pick(rng, ("unrelated", "equal", "reordered", "one edge", "added", "removed"))
    x = np.array(biadj)
    if kind == "unrelated":
        return kind, make(rng, x.shape[1])
    if kind == "reordered":
        x = x[rng.permutation(len(x))]
    elif kind == "one edge":
        i, j = rng.integers(x.shape[0]), rng.integers(x.shape[1])
        x[i, j] = 1 - x[i, j]
    elif kind == "added":
        x = np.vstack([x, rng.random(x.shape[1]) < 0.5])
    elif kind == "removed" and len(x) > 1:
        x = x[1:]
    return kind, x.tolist()


def how(rng):
    return {"dtype": gen.pick(rng, gen.DTYPES), "layout": gen.pick(rng, ("C", "F", "read-only"))}


def spec(rng):
    a = make(rng, gen.between(rng, 1, 12 if rng.random() < 0.95 else 40))
    kind, b = related(rng, a)
    if rng.random() < 0.5:
        a, b = b, a
    return {
        "a": a,
        "b": b,
        "c": related(rng, b)[1],
        "relation": kind,
        "how a": how(rng),
        "how b": how(rng),
        "how c": how(rng),
        "seed": int(rng.integers(2**32)),
    }


def many_latents(rng):
    """Structures with so many latents that small integers overflow."""
    d = gen.between(rng, 1, 4)

    def block(limit):
        number = 256 if limit > 200 and rng.random() < 0.3 else gen.between(rng, 1, limit)
        rows = (rng.random((number, d)) < gen.pick(rng, (0.3, 0.7, 1))).astype(int)
        return rows.tolist()

    limit = gen.pick(rng, (20, 150, 300))
    return {
        "a": block(limit),
        "b": block(gen.pick(rng, (3, limit))),
        "relation": "many latents",
        "how a": how(rng),
        "how b": how(rng),
        "seed": 0,
    }


def smaller(case):
    names = [k for k in "abc" if k in case]
    for k in names:
        for i in range(len(case[k])):
            if len(case[k]) > 1:
                yield {**case, k: case[k][:i] + case[k][i + 1 :]}
    for j in range(len(case["a"][0])):
        if len(case["a"][0]) > 1:
            yield {**case, **{k: [r[:j] + r[j + 1 :] for r in case[k]] for k in names}}
    for k in names:
        for i, row in enumerate(case[k]):
            for j, value in enumerate(row):
                if value:
                    yield {**case, k: case[k][:i] + [row[:j] + [0] + row[j + 1 :]] + case[k][i + 1 :]}


def large(rng):
    d = gen.between(rng, 30, 150)

    def block():
        rows = gen.between(rng, 1, 400) if rng.random() < 0.5 else gen.pick(rng, (2, 1000))
        return rows, float(gen.pick(rng, (0.05, 0.3, 0.9, 1)))

    return {"d": d, "a": block(), "b": block(), "how a": how(rng), "how b": how(rng),
            "seed": int(rng.integers(2**32))}


def check_large(case):
    rng = np.random.default_rng(case["seed"])
    d = case["d"]
    a, b = (rng.random((case[k][0], d)) < case[k][1] for k in "ab")
    got = distance(array(a, case["how a"]), array(b, case["how b"]))
    # summed latent by latent as 64-bit integers
    counts = [np.zeros((d, d), np.int64) for _ in "ab"]
    for x, count in zip((a, b), counts):
        for row in x:
            members = np.flatnonzero(row)
            count[np.ix_(members, members)] += 1
    squared = int(((counts[0] - counts[1]) ** 2).sum())
    hamming = int(np.triu((counts[0] > 0) != (counts[1] > 0), 1).sum())
    assert got == (squared, hamming), f"{got} instead of {(squared, hamming)}"
    return squared > 0, ["over 2**31" if squared >= 2**31 else "smaller"]


SUBS = [
    Sub("definition", gen.seeded(spec), check, 3000, 150000, minimise=smaller),
    Sub("many latents", gen.seeded(many_latents), check, 240, 6000),
    Sub("large", gen.seeded(large), check_large, 60, 2000),
    Sub("laws", gen.seeded(spec), laws, 1200, 60000, minimise=smaller),
]
