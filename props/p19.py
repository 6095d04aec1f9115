"""P19: neural decoder keeps measurements' mechanisms separate and fully trainable."""
import copy

import numpy as np
import torch

from medil.vae import VariationalAutoencoder
from vlib import gen, ncfa
from vlib.core import Sub

RULE = (
    "autoencoders with 1 to 6 latents and measurements, 0 to 4 hidden layers and 1 to 4 units per measurement (some with up to 16 or with 90 to 370 measurements), with initial or random weights "
    "(all entries, i.e. also masked ones) and random latents, and fitted models after 1 to 4 epochs; units are attributed to measurements by gradients; "
    "non-trivial: at least two latents and two measurements"
)
ASSUMPTIONS = ["weights are small enough for activations not to saturate"]


DTYPE = torch.float64


def first_layers(decoder):
    return decoder.mean_linear_fulcon, decoder.cov_linear_fulcon


def latents(rng, num, dim):
    return torch.tensor(rng.normal(size=(num, dim)), dtype=DTYPE)


def units_of(decoder, z, num_meas):
    """Which first-layer units influence which output, by gradients."""
    masks = []
    for layer, idx in zip(first_layers(decoder), (0, 1)):
        rows = []
        for j in range(num_meas):
            decoder.zero_grad(set_to_none=True)
            out = decoder(z)[idx]
            assert out.shape == (len(z), num_meas), f"output of shape {tuple(out.shape)}"
            out[:, j].pow(2).sum().backward()
            rows.append((layer.bias.grad != 0).numpy())
        decoder.zero_grad(set_to_none=True)
        masks.append(np.array(rows))
    return masks


def separate(decoder, rng, num_latent, num_meas, width, edits=3):
    z = latents(rng, 7, num_latent)
    masks = units_of(decoder, z, num_meas)
    for mask in masks:
        assert mask.shape[1] == num_meas * width
        assert (mask.sum(0) == 1).all(), f"units used by several or no measurements: {mask.sum(0)}"
        assert (mask.sum(1) == width).all(), f"units per measurement: {mask.sum(1)}"
    for _ in range(edits):
        l, j = int(rng.integers(num_latent)), int(rng.integers(num_meas))
        edited = copy.deepcopy(decoder)
        with torch.no_grad():
            for layer, mask in zip(first_layers(edited), masks):
                layer.weight[torch.tensor(mask[j]), l] = 0
            before, after = decoder(z), edited(z)
            other = z.clone()
            other[:, l] = latents(rng, 7, 1)[:, 0]
            moved, original = edited(other), decoder(other)
        for a, b, c, d, what in zip(before, after, moved, original, ("mean", "log-variance")):
            rest = np.arange(num_meas) != j
            assert torch.allclose(a[:, rest], b[:, rest], rtol=0, atol=1e-12), (
                f"{what} of other measurements changed when cutting {l} -> {j}"
            )
            assert torch.allclose(b[:, j], c[:, j], rtol=0, atol=1e-12), (
                f"latent {l} still influences the {what} of {j}"
            )
            assert not torch.equal(a[:, j], d[:, j]), f"latent {l} doesn't influence the {what} of {j}"


def trainable(decoder, rng, num_latent, num_meas, width, hidden):
    """The number of parameters with influence on the outputs, whatever their layout."""
    z = latents(rng, 9, num_latent)
    decoder.zero_grad(set_to_none=True)
    mean, logcov = decoder(z)
    (torch.tensor(rng.normal(size=mean.shape)) * mean).sum().backward(retain_graph=True)
    (torch.tensor(rng.normal(size=mean.shape)) * logcov).sum().backward()
    params = dict(decoder.named_parameters())
    used = {k: int((p.grad != 0).sum()) for k, p in params.items() if p.grad is not None}
    want = 2 * (
        num_meas * width * (num_latent + 1)
        + hidden * num_meas * width * (width + 1)
        + num_meas * (width + 1)
    )
    assert sum(used.values()) == want, f"{used}: {want} decoder parameters should be trainable"
    saved = decoder.state_dict()
    assert set(params) <= set(saved)
    decoder.zero_grad(set_to_none=True)


def randomise(module, rng):
    with torch.no_grad():
        for p in module.parameters():
            p.copy_(torch.tensor(rng.normal(size=tuple(p.shape))))


def check(case):
    torch.manual_seed(case["seed"])
    rng = np.random.default_rng(case["seed"])
    k, d, hidden, width = case["latents"], case["meas"], case["hidden"], case["width"]
    vae = VariationalAutoencoder(k, d, hidden, width).to(DTYPE)
    if case["weights"] == "random":
        randomise(vae, rng)
    vae.eval()
    separate(vae.decoder, rng, k, d, width)
    trainable(vae.decoder, rng, k, d, width, hidden)
    # the saved state is all there is
    torch.manual_seed(case["seed"] + 1)
    other = VariationalAutoencoder(k, d, hidden, width).to(DTYPE).eval()
    x = latents(rng, 5, d)
    with torch.no_grad():
        differs = any(not torch.equal(a, b) for a, b in zip(vae(x), other(x)))
        other.load_state_dict(vae.state_dict())
        assert differs, "different initialisations give the same model"
        for a, b in zip(vae(x), other(x)):
            assert torch.equal(a, b), "the saved state doesn't determine the model"
        mean, logcov, mu, logvar = vae(x)
        assert mean.shape == logcov.shape == (5, d) and mu.shape == logvar.shape == (5, k)
    return k > 1 and d > 1, [f"{hidden} hidden layers", f"width {width}", case["weights"]]


def trained(case):
    rng = np.random.default_rng(case["extra"])
    hyper = case["hyper"]
    d, hidden, width = case["d"], hyper["num_hidden_layers"], hyper["width_per_meas"]
    with ncfa.scratch():
        model = ncfa.fit(case)
        start = ncfa.state(ncfa.fit(case, lr=0.0))
    end = ncfa.state(model)
    assert start.keys() == end.keys()
    for key in start:
        if key.startswith("decoder"):
            assert not np.array_equal(start[key], end[key]), f"training doesn't change {key}"
    weights = np.asarray(model.parameters.weights)
    decoder = copy.deepcopy(model.parameters.vae.decoder).to(DTYPE)
    assert np.array_equal(
        weights.T, model.parameters.vae.decoder.cov_linear_fulcon.weight.detach().numpy()
    ), "weights of the fitted model aren't those of its decoder"
    assert weights.shape == (d, d * width)
    separate(decoder, rng, d, d, width)
    trainable(decoder, rng, d, d, width, hidden)
    return d > 1, [f"{hidden} hidden layers", f"width {width}"]


def architecture(rng):
    return {
        "latents": gen.between(rng, 1, 6 if rng.random() < 0.9 else 16),
        "meas": gen.between(rng, 1, 6 if rng.random() < 0.9 else 16),
        "hidden": gen.pick(rng, (0, 1, 1, 2, 3, 4, 6)),
        "width": gen.between(rng, 1, 4 if rng.random() < 0.9 else 9),
        "weights": gen.pick(rng, ("initial", "random")),
        "seed": int(rng.integers(2**32)),
    }


def many(rng):
    width = gen.pick(rng, (1, 1, 2, 3))
    return {
        "latents": gen.between(rng, 1, 4),
        "meas": gen.between(rng, 90, 330) // width + gen.pick(rng, (0, 1)) * 40,
        "hidden": gen.between(rng, 1, 3),
        "width": width,
        "weights": gen.pick(rng, ("initial", "random")),
        "seed": int(rng.integers(2**32)),
    }


def smaller(case):
    for key, least in (("hidden", 0), ("width", 1), ("latents", 1), ("meas", 1)):
        for value in range(least, case[key]):
            yield {**case, key: value}
    if case["weights"] != "initial":
        yield {**case, "weights": "initial"}


SUBS = [
    Sub("architectures", gen.seeded(architecture), check, 600, 30000, minimise=smaller),
    Sub("many measurements", gen.seeded(many), check, 36, 1000, shrink=False),
    Sub("trained", gen.seeded(ncfa.spec), trained, 150, 6000, shrink=False, minimise=ncfa.smaller),
]
