"""P08: random Gaussian model parameters match the structure and documented ranges."""
import numpy as np

from medil.models import GaussianMCM
from medil.sample import mcm
from vlib import gen
from vlib.core import Sub

RULE = (
    "0/1 structures (any shape up to 6 x 9 with empty rows/columns/one-pure-child, Boolean, int, "
    "uint8, float, C or Fortran order) or none with generation options, generator kinds and states; large structures for what can occur; invalid parameterisations; "
    "non-trivial: at least 2 latents, an edge and a non-edge"
)
ASSUMPTIONS = []


def in_ranges(model, biadj):
    params = model.parameters
    assert np.asarray(model.biadj).shape == biadj.shape
    assert (np.asarray(model.biadj).astype(bool) == biadj).all(), "the structure was changed"
    weights = np.asarray(params.biadj_weights)
    assert weights.shape == biadj.shape, f"weights' shape {weights.shape}"
    assert ((weights != 0) == biadj).all(), "weights don't match the structure"
    size = np.abs(weights[biadj])
    assert ((size >= 0.5) & (size < 2)).all(), f"weights {size.min()} to {size.max()}"
    means, variances = np.asarray(params.error_means), np.asarray(params.error_variances)
    num_meas = biadj.shape[1]
    assert means.shape == (num_meas,) and variances.shape == (num_meas,)
    assert (np.abs(means) < 2).all(), f"means {means}"
    assert ((variances >= 0.5) & (variances < 2)).all(), f"variances {variances}"


def form(case):
    biadj = np.array(case["biadj"]).astype(case["dtype"])
    return np.asfortranarray(biadj) if case["fortran"] else biadj


def check(case):
    given = form(case)
    model = mcm(rng=np.random.default_rng(case["seed"]), biadj=given)
    biadj = given.astype(bool)
    assert isinstance(model, GaussianMCM)
    in_ranges(model, biadj)
    sample = model.sample(3)
    assert sample.shape == (3, biadj.shape[1]) and np.isfinite(sample).all()
    return len(biadj) >= 2 and biadj.any().item() and not biadj.all().item(), [case["dtype"]]


def generated(case):
    kwargs = {k: v for k, v in case["options"].items()}
    model = mcm(rng=np.random.default_rng(case["seed"]), **kwargs)
    biadj = np.asarray(model.biadj)
    assert biadj.dtype == bool and biadj.shape[1] == kwargs["num_meas"]
    in_ranges(model, biadj)
    parents = biadj.sum(0)
    assert (parents >= 1).all() and biadj.any(1).all()
    num_latent = len(biadj)
    if kwargs.get("one_pure_child", True):
        assert biadj[:, parents == 1].any(1).all(), "a latent without pure child"
        if "num_latent" in kwargs:
            assert num_latent == kwargs["num_latent"]
        free = (kwargs["num_meas"] - num_latent) * (num_latent - 1)
        expected = kwargs.get("density", 0.2) * free
        assert abs(biadj.sum() - kwargs["num_meas"] - expected) <= 0.5 + 1e-9, "density ignored"
    else:
        reach = biadj.T.astype(int) @ biadj.astype(int)
        edges = np.triu(reach, 1).astype(bool).sum()
        expected = kwargs.get("density", 0.2) * kwargs["num_meas"] * (kwargs["num_meas"] - 1) / 2
        assert abs(edges - expected) <= 0.5 + 1e-9, "density ignored"
    return num_latent >= 2, ["1pc" if kwargs.get("one_pure_child", True) else "Erdos-Renyi"]


def possible(case):
    """With 400 draws each, signs and the whole range occur (misses: < 1e-12)."""
    shape = case["shape"]
    models = [
        mcm(rng=np.random.default_rng(seed), biadj=np.ones(shape, case["dtype"]))
        for seed in range(case["seed"], case["seed"] + 8)
    ]
    for name, low, high, signed in (
        ("biadj_weights", 0.5, 2, True),
        ("error_means", 0, 2, True),
        ("error_variances", 0.5, 2, False),
    ):
        values = np.concatenate([np.ravel(getattr(m.parameters, name)) for m in models])
        size = np.abs(values)
        for quarter in range(4):
            a = low + (high - low) * quarter / 4
            assert ((size >= a) & (size < a + (high - low) / 4)).any(), f"{name} misses a range"
        if signed:
            assert (values > 0).any() and (values < 0).any(), f"{name} has only one sign"
        else:
            assert (values > 0).all()
        # two equal values are as likely as 1e-7 in the largest models
        assert len(np.unique(values)) >= len(values) - 1, f"{name} repeats values"
    for m in models:
        signs = np.sign(m.parameters.biadj_weights)
        assert (signs > 0).any() and (signs < 0).any()
    return True, []


def independent(case):
    """Over many draws, signs and sizes of all parameters are uncorrelated (misses: < 1e-10)."""
    num = 1500
    biadj = np.array(case["biadj"]).astype(case["dtype"])
    rng = np.random.default_rng(case["seed"])
    rows = []
    for i in range(num):
        if not case["one generator"]:
            rng = np.random.default_rng(case["seed"] + i)
        p = mcm(rng=rng, biadj=biadj).parameters
        weights = p.biadj_weights[biadj.astype(bool)]
        rows.append(
            np.concatenate(
                [np.sign(weights), np.abs(weights), np.sign(p.error_means), np.abs(p.error_means), p.error_variances]
            )
        )
    rows = np.array(rows)
    dev = rows - rows.mean(0)
    dev /= np.sqrt((dev**2).sum(0))
    corr = np.abs(dev.T @ dev)
    np.fill_diagonal(corr, 0)
    assert corr.max() < 7.5 / np.sqrt(num), f"parameters {np.argwhere(corr == corr.max())[0]} are dependent"
    if case["one generator"]:
        corr = np.abs(dev[1:].T @ dev[:-1])
        assert corr.max() < 7.5 / np.sqrt(num), "successive models are dependent"
    return True, ["one generator" if case["one generator"] else "generators"]


def invalid(case):
    biadj = np.array(case["biadj"], bool)
    rng = np.random.default_rng(case["seed"])
    try:
        mcm(rng=rng, parameterization=case["name"], biadj=biadj)
    except ValueError:
        expected = "ValueError"
    except NotImplementedError:
        expected = "NotImplementedError"
    else:
        expected = "nothing"
    wanted = "NotImplementedError" if case["name"] == "VAE" else "ValueError"
    assert expected == wanted, f"{expected} raised for {case['name']!r}"
    return True, [wanted]


def given(rng):
    matrix = (
        gen.make_structure(rng, max_latent=6, max_meas=9)
        if rng.random() < 0.5
        else gen.make_matrix01(rng, max_rows=6, max_cols=9)
    )
    return {
        "biadj": matrix,
        "dtype": gen.pick(rng, gen.DTYPES),
        "fortran": bool(rng.integers(2)),
        "seed": int(rng.integers(2**32)),
    }


def options(rng):
    num_meas = gen.between(rng, 2, 10)
    opts = {"num_meas": num_meas}
    if rng.random() < 0.7:
        opts["density"] = float(rng.choice([0, 1, rng.random(), rng.random()]))
    if rng.random() < 0.4:
        opts["one_pure_child"] = bool(rng.integers(2))
    if opts.get("one_pure_child", True) and rng.random() < 0.5:
        opts["num_latent"] = gen.between(rng, 1, num_meas)
    if not opts.get("one_pure_child", True):
        opts["num_meas"] = min(num_meas, 8)
    return {"options": opts, "seed": int(rng.integers(2**32))}


def bad(rng):
    return {
        "biadj": gen.make_structure(rng),
        "name": gen.pick(rng, ("VAE", "gaussian", "", "Gauss", "vae", "Gaussian ", "linear")),
        "seed": int(rng.integers(2**32)),
    }


def large(rng):
    return {
        "seed": int(rng.integers(2**31)),
        "dtype": gen.pick(rng, gen.DTYPES),
        "shape": gen.pick(rng, ([8, 50], [8, 50], [60, 70], [1, 3000], [3, 400])),
    }


def many(rng):
    case = large(rng)
    case["biadj"] = gen.make_structure(rng, max_latent=3, max_meas=5, min_meas=2)
    case["one generator"] = bool(rng.integers(2))
    return case


SUBS = [
    Sub("given structure", gen.seeded(given), check, 1800, 60000, minimise=gen.smaller_biadj),
    Sub("generated structure", gen.seeded(options), generated, 900, 30000),
    Sub("possible", gen.seeded(large), possible, 60, 1500),
    Sub("independent", gen.seeded(many), independent, 30, 1000),
    Sub("invalid", gen.seeded(bad), invalid, 60, 600),
]
