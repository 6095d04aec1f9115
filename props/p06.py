"""P06: random one-pure-child structures satisfy their specification."""
import numpy as np

from medil.sample import biadj as random_biadj
from vlib import gen
from vlib.core import Sub

RULE = (
    "(num_meas up to 200, num_latent given or not, density in [0, 1] incl. random reals, or None, "
    "generator of 4 bit-generator kinds and state) drawn uniformly; families of 300 generator states for what can occur and of 60 for how edges are spread; non-trivial: "
    "at least 2 latents and a measurement that isn't a pure child"
)
ASSUMPTIONS = ["num_meas >= 2 unless num_latent is given"]
BITGENS = ("PCG64", "MT19937", "Philox", "SFC64")


def generator(case):
    rng = np.random.Generator(getattr(np.random, case["bitgen"])(case["seed"]))
    rng.random(case["skip"])
    return rng


def arguments(case):
    kwargs = {"num_meas": case["num_meas"]}
    if case["density"] != "default":
        kwargs["density"] = case["density"]
    if case["num_latent"]:
        kwargs["num_latent"] = case["num_latent"]
    if case["explicit"]:
        kwargs["one_pure_child"] = True
    return kwargs


def spec(biadj, case):
    num_meas = case["num_meas"]
    biadj = np.asarray(biadj)
    assert biadj.ndim == 2 and biadj.shape[1] == num_meas, f"shape {biadj.shape}"
    assert np.isin(biadj, (0, 1)).all()
    num_latent = len(biadj)
    if case["num_latent"]:
        assert num_latent == case["num_latent"], f"{num_latent} latents"
    else:
        assert 1 <= num_latent < num_meas, f"{num_latent} latents"
    biadj = biadj.astype(bool)
    parents = biadj.sum(0)
    assert (parents >= 1).all(), "a measurement without parent"
    assert biadj[:, parents == 1].any(1).all(), "a latent without pure child"
    free = (num_meas - num_latent) * (num_latent - 1)
    extra = biadj.sum() - num_meas
    if case["density"] is None:
        assert 0 <= extra <= free
    else:
        density = 0.2 if case["density"] == "default" else case["density"]
        # as Python and numpy round (ties to even)
        number = {round(free * density), round(density * (num_meas - num_latent) * (num_latent - 1))}
        assert extra in number, f"{extra} instead of {density * free} additional edges"
    return num_latent, free


def check(case):
    num_latent, free = spec(random_biadj(**arguments(case), rng=generator(case)), case)
    labels = [case["bitgen"], f"{min(num_latent, 5)} latents"]
    labels.append("density " + ("None" if case["density"] is None else
                                "0 or 1" if case["density"] in (0, 1) else "other"))
    return free > 0, labels


def possible(case):
    """Over many generator states, everything that can occur does."""
    num_meas, num_latent = case["num_meas"], case["num_latent"]
    rng = generator(case)
    sizes = set()
    pure = np.zeros(num_meas, int)
    edges = 0
    extra = set()
    for _ in range(300):
        biadj = np.asarray(random_biadj(**arguments(case), rng=rng)).astype(bool)
        spec(biadj, case)
        sizes.add(len(biadj))
        extra.add(int(biadj.sum()) - num_meas)
        if num_latent:
            pure += biadj.sum(0) == 1
            edges = edges + biadj
    if not num_latent:
        # each size misses with probability (1 - 1 / (num_meas - 1)) ** 300 < 1e-14
        assert sizes == set(range(1, num_meas)), f"only {sorted(sizes)} latents occur"
        return num_meas > 2, ["sizes"]
    labels = ["positions"]
    # each measurement is a pure child with probability >= num_latent / num_meas
    assert pure.all(), f"measurements {np.flatnonzero(pure == 0)} are never pure children"
    assert (edges > 0).all(), f"edges {np.argwhere(edges == 0).tolist()} never occur"
    if num_latent >= 2 and num_latent < num_meas:
        # every latent can have other children than its pure one
        density = {"default": 0.2}.get(case["density"], case["density"])
        if density is None:
            free = (num_meas - num_latent) * (num_latent - 1)
            assert len(extra) > min(free, 3), f"only {sorted(extra)} additional edges occur"
            labels.append("random density")
    return num_latent >= 2, labels


def children(case):
    """Every latent can be a parent of the children that aren't pure, even of
    those with only one parent."""
    num_latent = case["num_latent"]
    rng = generator(case)
    most = np.zeros(num_latent, int)
    several = 0
    for _ in range(300):
        biadj = np.asarray(random_biadj(**arguments(case), rng=rng)).astype(bool)
        spec(biadj, case)
        most = np.maximum(most, biadj.sum(1))
        several += (biadj.sum(1) > 1).sum() > 1
    assert (most > 1).all(), f"latents {np.flatnonzero(most <= 1)} only have one child"
    if case["density"] == 0 and case["num_meas"] - num_latent > 1:
        # additional children then have one latent each: two of them differ
        # with probability of at least 1/2
        assert several > 50, f"additional children's latents differ in {several} of 300 structures"
        return True, ["different latents"]
    return True, []


def unevenness(counts):
    return float(((counts - counts.mean()) ** 2).sum())


def placement(case):
    """Additional edges are spread over the other children and latents like
    draws without replacement."""
    num_meas, num_latent, density = case["num_meas"], case["num_latent"], case["density"]
    others = num_meas - num_latent
    rng = generator(case)
    own = np.random.default_rng(case["seed"])
    number = round(others * (num_latent - 1) * density)
    expected = []
    for _ in range(400):
        edges = np.arange(others * (num_latent - 1)) < number
        parents = own.permutation(edges).reshape(others, num_latent - 1).sum(1)
        rows = np.arange(num_latent)[:, None] <= parents
        rows = own.permuted(rows, axis=0).sum(1)
        expected.append((unevenness(parents), unevenness(rows)))
    got = []
    for _ in range(60):
        biadj = np.asarray(random_biadj(**arguments(case), rng=rng)).astype(bool)
        spec(biadj, case)
        parents = np.sort(biadj.sum(0))[num_latent:] - 1  # the others have one parent
        rows = biadj.sum(1) - 1
        got.append((unevenness(parents), unevenness(rows)))
    expected, got = np.array(expected), np.array(got)
    se = expected.std(0) * np.sqrt(1 / 60 + 1 / 400)
    dev = np.abs(got.mean(0) - expected.mean(0))
    for what, d, s in zip(("children", "latents"), dev, se):
        assert d <= 8 * s + 1e-9, f"edges are spread over {what} too (un)evenly: {d / s} standard errors"
    return number > 0, ["up to 10 latents" if num_latent <= 10 else "more latents"]


def base(rng, max_meas=40):
    num_meas = gen.between(rng, 2, max_meas)
    num_latent = 0 if rng.random() < 0.3 else gen.between(rng, 1, num_meas)
    return {
        "num_meas": num_meas,
        "num_latent": num_latent,
        "density": gen.pick(rng, ("default", None, 0, 1, 0.0, 1.0, 0.5, 0.25))
        if rng.random() < 0.5
        else float(rng.random()),
        "bitgen": gen.pick(rng, BITGENS),
        "seed": int(rng.integers(2**32)),
        "skip": int(rng.integers(3)),
        "explicit": bool(rng.integers(2)),
    }


def single(rng):
    case = base(rng, max_meas=200 if rng.random() < 0.1 else 40)
    if rng.random() < 0.05:
        case["num_meas"] = case["num_latent"] = 1
    return case


def many(rng):
    case = base(rng, max_meas=8)
    case["density"] = gen.pick(rng, ("default", None, 0.0, 0.3, 0.7))
    return case


def spread(rng):
    case = base(rng, max_meas=8)
    case["num_meas"] = gen.between(rng, 3, 8)
    case["num_latent"] = gen.between(rng, 2, min(5, case["num_meas"] - 1))
    case["density"] = gen.pick(rng, (0.0, 0.2, 0.5))
    return case


def spacious(rng):
    """Enough places for edges."""
    case = base(rng)
    case["num_meas"] = gen.between(rng, *gen.pick(rng, ((12, 60), (100, 200))))
    case["num_latent"] = gen.between(rng, 3, case["num_meas"] * 2 // 3)
    case["density"] = gen.pick(rng, (0.1, 0.3, 0.5, 0.7, 0.9))
    return case


SUBS = [
    Sub("specification", gen.seeded(single), check, 6000, 300000),
    Sub("possible", gen.seeded(many), possible, 60, 2000),
    Sub("placement", gen.seeded(spacious), placement, 30, 1000),
    Sub("children", gen.seeded(spread), children, 36, 1000),
]
