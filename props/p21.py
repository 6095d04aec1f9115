"""P21: neural training objective is the penalised ELBO, sampled only in training."""
import math

import numpy as np
import torch
from torch.nn.modules import module as torch_module

from medil.vae import Decoder, Encoder
from vlib import gen, ncfa
from vlib.core import Sub

RULE = (
    "datasets, hyperparameters (1 to 4, some 50 to 210 epochs, several batches per epoch) and explicit splits as for P18; the last validation loss and error are recomputed "
    "with an independent implementation, the regularisation's contribution by fits without learning, the encoder's and decoder's inputs and outputs "
    "are recorded during fits, and the first optimisation step is compared with the gradient of the recomputed loss; non-trivial: several batches or epochs"
)
ASSUMPTIONS = [
    "the Gaussian reconstruction term may contain the covariance's determinant (as in the repository) or its logarithm",
    "losses agree up to 1e-4 (single precision)",
]


def standardised(x):
    x = x.astype(float)
    std = np.sqrt(((x - x.mean(0)) ** 2).mean(0))
    return (x - x.mean(0)) / np.where(std > 0, std, 1)


def terms(x, recon, logcov, mu, logvar, log):
    """KL divergence and negative reconstruction term of one batch."""
    kl = 0.5 * (mu**2 + logvar.exp() - logvar - 1).sum()
    var = logcov.exp().mean(0)
    det = var.log().sum() if log else var.prod()
    rec = 0.5 * (len(x) * det + ((x - recon) ** 2 / var).sum())
    return kl, rec


def batches(x, size):
    return [x[i : i + size] for i in range(0, len(x), size)]


def evaluate(vae, x, hyper, log):
    """Average loss per observation and error of the model, without noise."""
    vae = vae.double()
    losses, kls, errors = [], [], []
    with torch.no_grad():
        for part in batches(torch.tensor(x), hyper["batch_size"]):
            mu, logvar = vae.encoder(part)
            recon, logcov = vae.decoder(mu)
            kl, rec = terms(part, recon, logcov, mu, logvar, log)
            losses.append((hyper["beta"] * kl + rec).item() / len(part))
            kls.append(kl.item() / len(part))
            errors.append(torch.linalg.svdvals(part - recon).max().item() / len(part))
    vae.float()
    return np.mean(losses), np.mean(kls), np.mean(errors)


def close(a, b, tol=1e-4, scale=0.0):
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b), scale)) or (math.isnan(a) and math.isnan(b))


class Recorder:
    """Records what goes in and out of encoders and decoders."""

    def __init__(self):
        self.passes, self.last = [], None

    def __enter__(self):
        def hook(module, args, out):
            if isinstance(module, Encoder):
                self.last = out
            elif isinstance(module, Decoder) and self.last is not None:
                mu, logvar = self.last
                self.last = None
                if args[0].shape == mu.shape:
                    self.passes.append(
                        {
                            "grad": torch.is_grad_enabled(),
                            "mu": mu.detach().clone(),
                            "logvar": logvar.detach().clone(),
                            "z": args[0].detach().clone(),
                        }
                    )

        self.handle = torch_module.register_module_forward_hook(hook)
        return self

    def __exit__(self, *args):
        self.handle.remove()


def noise(case):
    """Every training pass is noisy, nothing else is."""
    hyper = case["hyper"]
    train, valid = ncfa.split_of(case)
    x = ncfa.dataset_of(case)
    with ncfa.scratch():
        with Recorder() as rec:
            model = ncfa.fit(case)
    training = [p for p in rec.passes if p["grad"]]
    validation = [p for p in rec.passes if not p["grad"]]
    labels = ["recorded" if rec.passes else "nothing recorded"]
    if rec.passes:
        sizes = [len(b) for b in batches(train, hyper["batch_size"])] * hyper["num_epochs"]
        assert sorted(len(p["mu"]) for p in training) == sorted(sizes), "training passes"
        draws = []
        for p in training:
            eps = (p["z"] - p["mu"]) / (p["logvar"] / 2).exp()
            assert (eps != 0).any(), "training pass without noise"
            draws.append(eps.numpy().ravel())
        assert all(
            not np.array_equal(a, b) for i, a in enumerate(draws) for b in draws[:i]
        ), "training passes with the same noise"
        draws = np.concatenate(draws)
        num = len(draws)
        assert abs(draws.mean()) * math.sqrt(num) <= 6.5, f"noise has mean {draws.mean()}"
        # the sum of squares is chi-squared; wide enough for a Gaussian's tails
        dev = 6.5 * math.sqrt(2 / num) + 45 / num
        assert abs((draws**2).mean() - 1) <= dev, f"noise has variance {(draws ** 2).mean()}"
        for p in validation:
            assert torch.equal(p["z"], p["mu"]), "validation pass with noise"
        assert validation, "no validation pass"
    # without learning, only the noise differs between epochs
    with ncfa.scratch():
        still = ncfa.fit(case, lr=0.0, num_epochs=3)
    for k in ("elbo_valid", "recon_valid"):
        assert len(set(still.loss[k].tolist())) == 1, f"{k} is noisy: {still.loss[k]}"
    if hyper["num_hidden_layers"] <= 1:  # deep decoders hardly depend on the latents initially
        for k in ("elbo_train", "recon_train"):
            assert len(set(still.loss[k].tolist())) > 1, f"{k} isn't noisy: {still.loss[k]}"
    # using the fitted model
    vae = model.parameters.vae
    assert not any(m.training for m in vae.modules()), "the fitted model is in training mode"
    x = torch.tensor(standardised(x), dtype=torch.float32)
    with torch.no_grad():
        first, second = vae(x), vae(x)
    assert all(torch.equal(a, b) for a, b in zip(first, second)), "the fitted model is noisy"
    return len(rec.passes) > 2, labels


def validation(case):
    hyper = case["hyper"]
    train, valid = ncfa.split_of(case)
    x = standardised(ncfa.dataset_of(case))
    with ncfa.scratch():
        model = ncfa.fit(case)
    got = model.loss["elbo_valid"][-1], model.loss["recon_valid"][-1]
    values = [evaluate(model.parameters.vae, x[valid], hyper, log) for log in (False, True)]
    if not (np.abs(values) < 1e20).all():
        return False, ["losses beyond single precision"]
    assert any(close(got[0], loss) for loss, _, _ in values), (
        f"validation loss {got[0]}, but the model's is {values[0][0]}"
    )
    assert close(got[1], values[0][2]), f"validation error {got[1]}, but the model's is {values[0][2]}"
    return len(batches(valid, hyper["batch_size"])) > 1 or hyper["num_epochs"] > 1, [
        f"{min(len(batches(valid, hyper['batch_size'])), 3)} batches",
        f"beta {hyper['beta']}",
    ]


def extremes(case):
    try:
        return validation(case)
    except torch.linalg.LinAlgError:
        return False, ["training diverged"]


def slopes(case):
    """What beta, lambda and mu contribute, per unit, without learning."""
    hyper = case["hyper"]
    train, valid = ncfa.split_of(case)
    x = standardised(ncfa.dataset_of(case))
    rng = np.random.default_rng(case["extra"])

    def fit(**changes):
        with ncfa.scratch():
            with Recorder() as rec:
                model = ncfa.fit(case, **{"lr": 0.0, **changes})
        return model, rec

    zero = {"beta": 0, "lambda": 0, "mu": 0}
    base, rec = fit(**zero)
    weights = base.parameters.vae.decoder.cov_linear_fulcon.weight.detach().double().numpy()
    nuclear, l1 = np.linalg.svd(weights, compute_uv=False).sum(), np.abs(weights).sum()
    assert nuclear > 0
    # losses are recorded per observation
    per = np.mean([1 / len(b) for b in batches(train, hyper["batch_size"])])
    scale = np.abs(base.loss["elbo_train"]).max()
    for name, norm in (("lambda", nuclear), ("mu", l1)):
        amount = gen.pick(rng, (0.01, 0.5, 3))
        model, _ = fit(**{**zero, name: amount})
        for a, b in zip(base.loss["elbo_train"], model.loss["elbo_train"]):
            assert close(b - a, amount * norm * per, scale=scale), (
                f"{name}={amount} changes the training loss by {b - a} instead of {amount * norm * per}"
            )
        for k in ("elbo_valid", "recon_valid", "recon_train"):
            assert np.array_equal(base.loss[k], model.loss[k]), f"{name} changes {k}"
    amount = gen.pick(rng, (0.3, 1, 4))
    model, _ = fit(**{**zero, "beta": amount})
    _, kl, _ = evaluate(base.parameters.vae, x[valid], hyper, False)
    assert kl >= 0
    for a, b in zip(base.loss["elbo_valid"], model.loss["elbo_valid"]):
        assert close(b - a, amount * kl, scale=abs(a)), (
            f"beta={amount} changes the validation loss by {b - a} instead of {amount * kl}"
        )
    _, kl, _ = evaluate(base.parameters.vae, x[train], hyper, False)
    for a, b in zip(base.loss["elbo_train"], model.loss["elbo_train"]):
        assert close(b - a, amount * kl, scale=scale), (
            f"beta={amount} changes the training loss by {b - a} instead of {amount * kl}"
        )
    for k in ("recon_valid", "recon_train"):
        assert np.array_equal(base.loss[k], model.loss[k]), f"beta changes {k}"
    # the training loss itself, with the recorded noise
    parts = batches(torch.tensor(x[train]), hyper["batch_size"])
    noisy = [p for p in rec.passes if p["grad"]]
    if len(noisy) == len(parts) * hyper["num_epochs"]:
        vae = base.parameters.vae.double()
        for epoch in range(hyper["num_epochs"]):
            here = noisy[epoch * len(parts) : (epoch + 1) * len(parts)]
            options, errors = ([], []), []
            with torch.no_grad():
                for part, p in zip(parts, here):
                    if len(p["z"]) != len(part):
                        break
                    recon, logcov = vae.decoder(p["z"].double())
                    for log in (False, True):
                        rest = terms(part, recon, logcov, p["mu"].double(), p["logvar"].double(), log)[1]
                        options[log].append(rest.item() / len(part))
                    errors.append(torch.linalg.svdvals(part - recon).max().item() / len(part))
                else:
                    got = base.loss["elbo_train"][epoch]
                    assert any(close(got, np.mean(o)) for o in options), (
                        f"training loss {got} instead of {np.mean(options[0])}"
                    )
                    got = base.loss["recon_train"][epoch]
                    assert close(got, np.mean(errors)), f"training error {got} instead of {np.mean(errors)}"
        vae.float()
    return len(parts) > 1 or hyper["num_epochs"] > 1, []


def first_step(case):
    """The first optimisation step descends along the gradient of the penalised ELBO."""
    hyper = {**case["hyper"], "num_epochs": 1, "batch_size": 128, "lr": 0.001}
    case = {**case, "hyper": hyper}
    train, valid = ncfa.split_of(case)
    x = torch.tensor(standardised(ncfa.dataset_of(case))[train])
    with ncfa.scratch():
        model = ncfa.fit(case)
    with ncfa.scratch():
        with Recorder() as rec:
            start = ncfa.fit(case, lr=0.0)
    noisy = [p for p in rec.passes if p["grad"]]
    if len(noisy) != 1 or len(noisy[0]["z"]) != len(x):
        return False, ["nothing recorded"]
    before, after = ncfa.state(start), ncfa.state(model)
    vae = start.parameters.vae.double()
    eps = ((noisy[0]["z"] - noisy[0]["mu"]) / (noisy[0]["logvar"] / 2).exp()).double()
    verdicts = []
    for log in (False, True):
        vae.zero_grad()
        mu, logvar = vae.encoder(x)
        recon, logcov = vae.decoder(mu + (logvar / 2).exp() * eps)
        kl, rest = terms(x, recon, logcov, mu, logvar, log)
        weight = vae.decoder.cov_linear_fulcon.weight
        loss = hyper["beta"] * kl + rest
        loss = loss + hyper["lambda"] * torch.linalg.svdvals(weight).sum() + hyper["mu"] * weight.abs().sum()
        loss.backward()
        largest = max(p.grad.abs().max().item() for p in vae.parameters() if p.grad is not None)
        wrong = None
        for name, p in vae.named_parameters():
            if p.grad is None or name not in before:
                continue
            g = p.grad.numpy()
            clear = np.abs(g) > 1e-3 * largest
            change = (after[name] - before[name])[clear]
            if not (change * g[clear] < 0).all():
                wrong = wrong or name
        verdicts.append(wrong)
    assert None in verdicts, f"the first step changes {verdicts[0]} uphill"
    return True, []


def spec(rng):
    return ncfa.spec(rng, split=True)


def long_spec(rng):
    """As many epochs as by default."""
    case = ncfa.spec(rng, split=True, max_d=3, max_n=24)
    case["hyper"]["num_epochs"] = gen.between(rng, 50, 210)
    case["hyper"]["num_hidden_layers"] = min(1, case["hyper"]["num_hidden_layers"])
    case["hyper"]["batch_size"] = max(8, case["hyper"]["batch_size"])
    return case


def extreme_spec(rng):
    """Fast learning leads to extreme means and variances."""
    case = spec(rng)
    case["hyper"]["lr"] = float(10 ** rng.uniform(-2, -0.5))
    case["hyper"]["beta"] = gen.pick(rng, (1, 0.01, 4))
    case["hyper"]["num_epochs"] = gen.between(rng, 2, 12)
    return case


SUBS = [
    Sub("validation", gen.seeded(spec), validation, 300, 12000, shrink=False),
    Sub("extremes", gen.seeded(extreme_spec), extremes, 180, 7000, shrink=False),
    Sub("noise", gen.seeded(spec), noise, 180, 7000, shrink=False),
    Sub("slopes", gen.seeded(spec), slopes, 120, 5000, shrink=False),
    Sub("long validation", gen.seeded(long_spec), extremes, 12, 400, shrink=False),
    Sub("long noise", gen.seeded(long_spec), noise, 12, 400, shrink=False),
    Sub("long slopes", gen.seeded(long_spec), slopes, 12, 400, shrink=False),
    Sub("first step", gen.seeded(spec), first_step, 180, 7000, shrink=False),
]
