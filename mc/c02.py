"""C02: lifecycle automaton of the hyperprior autoencoder."""
import sys

import torch
import torch.nn as nn

from . import core, nets

PID = "C02"
ASSUMPTIONS = ["CPU only: device moves are no-ops on tensors, the mode automaton is what is checked"]
OPS = ["train", "eval", "train_true", "train_false", "freeze_enc", "freeze_bot", "update", "update_force",
       "dev_forward", "dev_compress", "dev_bad", "forward", "compress", "collect", "reload"]
BOTTLENECK = ["hyper_bottleneck", "hyper_synthesis_mean", "hyper_synthesis_scale", "hyper_analysis", "latent_bottleneck"]


def bounds(tier):
    return "all call sequences over %d operations, explicit-state, depth <= %d, 4 constructor options (+1 subclass)" % (
        len(OPS), 6 if tier == "quick" else 9)


def cases(tier):
    d = 6 if tier == "quick" else 9
    for fe in (False, True):
        for fb in (False, True):
            for direct in (False, True):
                yield {"kind": "bfs", "freeze_encoder": fe, "freeze_bottleneck": fb, "depth": d, "direct": direct}
    yield {"kind": "collect"}
    yield {"kind": "trainstep"}


class Model:
    def __init__(self, fe, fb):
        self.fe, self.fb = fe, fb
        self.training = True
        self.dev = "forward"
        self.ready = False
        self.enc_mode = not fe
        self.bot_mode = not fb
        self.dec_mode = True


def build(fe, fb):
    from neuralcompression.models import HiFiCAutoencoder
    torch.manual_seed(0)
    m = HiFiCAutoencoder(in_channels=1, latent_features=2, hyper_features=2, num_residual_blocks=0,
                         freeze_encoder=fe, freeze_bottleneck=fb)
    return m


def slim(m):
    """swap the wide conv nets by small ones (keeps frozen state)."""
    for name, new in (("encoder", nets.ExactEncoder(1, 2, 4)), ("decoder", nets.ExactDecoder(1, 2, 4))):
        old = getattr(m, name)
        rg = [p.requires_grad for p in old.parameters()]
        new.train(old.training)
        for p in new.parameters():
            p.requires_grad_(rg[0])
        setattr(m, name, new)
    return m


def flags(mod):
    return (all(s.training for s in mod.modules()), any(s.training for s in mod.modules()),
            all(p.requires_grad for p in mod.parameters()), any(p.requires_grad for p in mod.parameters()),
            len(list(mod.parameters())))


def run_case(t, case):
    if case["kind"] == "collect":
        return collect_variants(t)
    if case["kind"] == "trainstep":
        return trainstep(t)
    fe, fb = case["freeze_encoder"], case["freeze_bottleneck"]
    direct = case["direct"]
    x = nets.image(1, 1, 64, 64)

    def fresh():
        return slim(build(fe, fb)), Model(fe, fb)

    if direct:  # the real full-width model, shallow depth, without slimming
        depth = 2

        def fresh():  # noqa: F811
            return build(fe, fb), Model(fe, fb)
    else:
        depth = case["depth"]

    base = fresh()[0]
    names = [n for n, _ in base.named_parameters()]

    import copy

    def fresh2():
        return copy.deepcopy(base), Model(fe, fb)

    # the constructor state itself is checked on the original object
    invariant(t, base, Model(fe, fb), ("construct",))

    def apply(m, r, op, last):
        def both_train(mode):
            r.training = mode
            r.dec_mode = mode
            r.enc_mode = mode and not r.fe
            r.bot_mode = mode and not r.fb

        err = None
        try:
            if op == "train":
                ret = m.train()
                both_train(True)
                if last:
                    t.check(ret is m, "train() must return the model")
            elif op == "eval":
                ret = m.eval()
                both_train(False)
                if last:
                    t.check(ret is m, "eval() must return the model")
            elif op == "train_true":
                m.train(True)
                both_train(True)
            elif op == "train_false":
                m.train(False)
                both_train(False)
            elif op == "freeze_enc":
                m.freeze_encoder()
                r.fe, r.enc_mode = True, False
            elif op == "freeze_bot":
                m.freeze_bottleneck()
                r.fb, r.bot_mode = True, False
            elif op == "update":
                m.update()
                r.ready = True
            elif op == "update_force":
                m.update(force=True)
                r.ready = True
            elif op == "dev_forward":
                m.update_tensor_devices("forward")
                r.dev = "forward"
            elif op == "dev_compress":
                m.update_tensor_devices("compress")
                r.dev = "compress"
                r.ready = True
            elif op == "dev_bad":
                for bad in ("", "Forward", "cuda", "compres"):
                    try:
                        m.update_tensor_devices(bad)
                        t.fail(f"device mode {bad!r} was accepted")
                    except ValueError:
                        pass
            elif op == "forward":
                try:
                    with torch.no_grad():
                        out = m(x)
                    if last:
                        t.check(r.dev == "forward", "forward ran although the model is in compression mode")
                        t.check(tuple(out.image.shape) == tuple(x.shape), "forward output shape")
                except RuntimeError as e:
                    if last:
                        t.check(r.dev == "compress", f"forward refused in forward mode: {e}")
            elif op == "compress":
                if r.ready:
                    with torch.no_grad():
                        y = m.decompress(m.compress(x))
                    if last:
                        t.check(tuple(y.shape) == tuple(x.shape), "compress/decompress shape")
            elif op == "collect":
                m.collect_parameters()
            elif op == "reload":
                m.load_state_dict(m.state_dict())
        except Exception as e:  # noqa: BLE001
            err = e
        if err is not None and last:
            t.fail(f"{op} raised {type(err).__name__}: {err}")

    def canon(m, r):
        return (r.fe, r.fb, r.training, r.dev, r.ready, r.enc_mode, r.bot_mode,
                tuple(p.requires_grad for p in m.parameters()), tuple(s.training for s in m.modules()),
                m.device_setting, m.latent_bottleneck._offset.numel() > 0 if hasattr(m.latent_bottleneck, "_offset") else 0)

    def inv(m, r, hist):
        invariant(t, m, r, hist, names)

    core.explore(t, fresh2, lambda r: OPS, apply, canon, inv, depth)
    t.sample({"case": case, "ops": OPS})


def invariant(t, m, r, hist, names=None):
    h = f"after {hist}"
    all_t, any_t, all_g, any_g, n = flags(m.encoder)
    if r.fe:
        t.check(not any_t and not any_g, f"{h}: frozen encoder is trainable or in training mode")
    else:
        t.check(all_g, f"{h}: encoder parameters lost their gradient although it is not frozen")
        t.check((all_t if r.enc_mode else not any_t), f"{h}: encoder does not follow train/eval")
    for name in BOTTLENECK:
        all_t, any_t, all_g, any_g, n = flags(getattr(m, name))
        if r.fb:
            t.check(not any_t and not any_g, f"{h}: frozen {name} is trainable or in training mode")
        else:
            t.check(all_g or n == 0, f"{h}: {name} parameters lost their gradient")
            t.check((all_t if r.bot_mode else not any_t), f"{h}: {name} does not follow train/eval")
    all_t, any_t, all_g, any_g, n = flags(m.decoder)
    t.check(all_g, f"{h}: decoder parameters frozen")
    t.check(all_t if r.dec_mode else not any_t, f"{h}: decoder does not follow train/eval")
    t.check(m.training == r.training, f"{h}: model.training is {m.training}")
    t.check(m.device_setting == r.dev, f"{h}: device mode is {m.device_setting}, expected {r.dev}")
    t.check(bool(m.frozen_encoder) == r.fe and bool(m.frozen_bottleneck) == r.fb, f"{h}: frozen flags wrong")
    if names is not None:
        t.check([n for n, _ in m.named_parameters()] == names, f"{h}: parameter set changed")
    partition(t, m, h)


def partition(t, m, h):
    try:
        mp, qp = m.collect_parameters()
    except Exception as e:  # noqa: BLE001
        t.fail(f"{h}: collect_parameters raised {type(e).__name__}: {e}")
        return
    mi, qi = [id(p) for p in mp], [id(p) for p in qp]
    want_q = {id(p) for n, p in m.named_parameters() if n.split(".")[-1] == "quantiles" and p.requires_grad}
    allp = {id(p) for p in m.parameters() if p.requires_grad}
    t.check(len(set(mi)) == len(mi) and len(set(qi)) == len(qi), f"{h}: a parameter is listed twice")
    t.check(not set(mi) & set(qi), f"{h}: parameter groups overlap")
    t.check(set(mi) | set(qi) == allp, f"{h}: parameter groups do not cover exactly the trainable parameters")
    t.check(set(qi) == want_q, f"{h}: quantile group wrong")


def collect_variants(t):
    """All subsets of trainable top-level parts, incl. a second entropy model."""
    import itertools
    from compressai.entropy_models import EntropyBottleneck
    base = slim(build(False, False))
    base.extra_bottleneck = EntropyBottleneck(2)   # user subclass with a second factorised prior
    base.quantiles_conv = nn.Conv2d(1, 1, 1)       # name that merely contains the word
    parts = ["encoder", "decoder", "hyper_bottleneck", "hyper_analysis", "extra_bottleneck", "quantiles_conv", "hyper_synthesis_mean"]
    for mask in itertools.product([False, True], repeat=len(parts)):
        for p in base.parameters():
            p.requires_grad_(True)
        for on, name in zip(mask, parts):
            for p in getattr(base, name).parameters():
                p.requires_grad_(on)
        partition(t, base, f"trainable parts {[n for n, o in zip(parts, mask) if o]}")
        t.step()
        t.state(mask)
        t.trace()
    # single quantile frozen
    for p in base.parameters():
        p.requires_grad_(True)
    base.hyper_bottleneck.quantiles.requires_grad_(False)
    partition(t, base, "hyper quantiles frozen")
    t.trace()


def trainstep(t):
    """Optimiser steps over every freeze option: frozen values never move."""
    for fe in (False, True):
        for fb in (False, True):
            for order in (("train",), ("eval", "train"), ("train", "eval", "train")):
                m = slim(build(fe, fb))
                for op in order:
                    getattr(m, op)()
                mp, qp = m.collect_parameters()
                opts = [torch.optim.SGD(mp, lr=0.1)] + ([torch.optim.SGD(qp, lr=0.1)] if qp else [])
                before = {n: p.detach().clone() for n, p in m.named_parameters()}
                x = nets.image(2, 1, 64, 64)
                out = m(x)
                loss = out.image.sum() + out.latent_likelihoods.log().sum() + out.hyper_latent_likelihoods.log().sum()
                loss.backward()
                opts[0].step()
                moved = {n for n, p in m.named_parameters() if not torch.equal(p, before[n])}
                t.step()
                for n in moved:
                    top = n.split(".")[0]
                    t.check(not (fe and top == "encoder"), f"frozen encoder parameter {n} moved")
                    t.check(not (fb and top in BOTTLENECK), f"frozen bottleneck parameter {n} moved")
                    t.check(not n.endswith(".quantiles"), f"model optimiser moved the quantiles {n}")
                t.check(any(n.startswith("decoder") for n in moved), "decoder did not train")
                if not fe:
                    t.check(any(n.startswith("encoder") for n in moved), "encoder did not train")
                if not fb:
                    t.check(any(n.split(".")[0] in BOTTLENECK for n in moved), "bottleneck did not train")
                t.state(fe, fb, order, sorted(moved))
                t.trace()


if __name__ == "__main__":
    core.main(sys.modules[__name__])
