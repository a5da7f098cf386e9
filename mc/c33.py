"""C33: adversarial and rate-targeted training steps of the ILLM project, replayed against an independent reference on every short history."""
import copy
import itertools
import math
import sys
import torch
import torch.nn as nn
import torch.nn.functional as F
from . import core, nets

PID = "C33"
ASSUMPTIONS = ["the training framework (lightning, hydra, omegaconf: not installed) is replaced by a stand-in offering manual optimisation, and metrics that need downloaded networks by recorders",
               "the compression model of the exact replay is a small deterministic one with the library's interface and a real entropy bottleneck"]
OPS = ["train_a", "train_b", "val"]


def bounds(tier):
    d = 3 if tier == "quick" else 4
    return ("all histories of up to %d steps over {training batch A, training batch B, validation} x conditional/unconditional discriminator x per-image/per-position targets x split/shared batches x 4 clipping settings x frozen parts, every step compared with an "
            "independent computation of all three updates; real autoencoder over all freeze options; all metric prefixes, data sets and out-of-range predictions" % d)


def cases(tier):
    d = 3 if tier == "quick" else 4
    for cond, proj, mc, frozen in itertools.product((0, 1), (0, 1), (0, 1), ("none", "bottleneck", "encoder")):
        yield {"kind": "gan", "cond": cond, "proj": proj, "mc": mc, "frozen": frozen, "clip": [None, ["norm", 0.01], ["value", 0.001], ["norm", 1e6]][(cond + 2 * proj + mc) % 4], "depth": d if frozen == "none" else d - 1}
    for clip in (None, ["norm", 0.01], ["value", 0.001]):
        yield {"kind": "target", "clip": clip, "depth": d}
    for fe, fb, cond in itertools.product((0, 1), (0, 1), (0, 1)):
        yield {"kind": "real", "fe": fe, "fb": fb, "cond": cond}
    yield {"kind": "split"}
    yield {"kind": "metrics"}
    yield {"kind": "test"}


class Toy(nn.Module):
    """A deterministic hyperprior autoencoder with the library's interface."""

    def __init__(self, seed=0):
        super().__init__()
        from compressai.entropy_models import EntropyBottleneck
        torch.manual_seed(seed)
        self.encoder = nn.Conv2d(3, 2, 4, 4)
        self.decoder = nn.ConvTranspose2d(2, 3, 4, 4)
        self.hyper_bottleneck = EntropyBottleneck(2, filters=(2,))
        self.scale = nn.Parameter(torch.tensor(0.3))
        self.seen = []

    def collect_parameters(self):
        return ([p for n, p in self.named_parameters() if not n.endswith("quantiles") and p.requires_grad],
                [p for n, p in self.named_parameters() if n.endswith("quantiles") and p.requires_grad])

    def forward(self, x):
        from neuralcompression import HyperpriorOutput
        self.seen.append(x.detach().clone())
        y = self.encoder(x)
        p = torch.sigmoid(self.scale + y) * 0.9 + 0.05
        z = F.avg_pool2d(y, 2)
        h = self.hyper_bottleneck._likelihood(z.permute(1, 0, 2, 3).reshape(2, 1, -1))
        h = h[0] if isinstance(h, tuple) else h
        h = h.reshape(2, z.shape[0], z.shape[2], z.shape[3]).permute(1, 0, 2, 3).clamp_min(1e-6)
        q = torch.sigmoid(torch.round(y)) * 0.9 + 0.05
        return HyperpriorOutput(image=torch.sigmoid(self.decoder(y)), latent=y, latent_likelihoods=p, quantized_latent_likelihoods=q, hyper_latent=z, hyper_latent_likelihoods=h, quantized_hyper_latent_likelihoods=h.detach() * 0.5)


class Projector(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.ones(1), requires_grad=False)
        self.seen = []

    def forward(self, x):
        self.seen.append(x.detach().clone())
        return (F.avg_pool2d(x.mean(1), 4) * 8 * self.w).long() % 3


class Opt(torch.optim.SGD):
    """Remembers, at each step, the gradients it applies."""

    def __init__(self, params, lr, who, log):
        super().__init__(list(params), lr=lr)
        self.who, self.log_ = who, log

    def step(self, *a, **k):
        ps = [p for g in self.param_groups for p in g["params"]]
        self.log_.append((self.who, [None if p.grad is None else p.grad.clone() for p in ps]))
        return super().step(*a, **k)


class Sched:
    def __init__(self, optimizer, who=None, log=None):
        self.optimizer, self.n = optimizer, 0

    def step(self, *a, **k):
        self.n += 1


def disc(cond, out):
    from neuralcompression.models import ConditionalUnetDiscriminator, UnetDiscriminator
    torch.manual_seed(7)
    if cond:
        return ConditionalUnetDiscriminator(output_channels=out, output_downsampling_factor=4, context_in=2, context_out=2, chans=[5, 4, 4, 4])
    return UnetDiscriminator(output_channels=out, output_downsampling_factor=4, chans=[3, 4, 4, 4])


LR = {"model": 0.01, "disc": 0.02, "aux": 0.05}
CFG = dict(target_bpp=0.4, target_factors=[2.0, 1.0], target_steps=[4], lam_levels=(0.25, 2.0), lam2_factors=[0.5, 1.0], lam2_steps=[2])


def make(kind, model, clip, log, cond=0, proj=0, mc=0):
    from neuralcompression import loss_fn as L
    from . import fakelightning as fl
    cfg = L.TargetRateConfig(**CFG)

    def opt(who):
        return lambda params: Opt(params, LR[who], who, log)
    oc = fl.DictConfig(model_opt=opt("model"), aux_opt=opt("aux"), discriminator_opt=opt("disc"), model_opt_schedule=Sched, aux_opt_schedule=Sched, discriminator_opt_schedule=Sched)
    kw = {}
    if clip:
        kw = dict(gradient_clip_val=clip[1], gradient_clip_algorithm=clip[0])
    if kind == "target":
        mod = fl.illm("target_compression_module")
        m = mod.TargetRateCompressionModule(model=model, target_rate_config=cfg, optimizer_config=oc, distortion_lam=0.75, distortion_loss=L.MSELoss(3.0), **kw)
    else:
        mod = fl.illm("gan_compression_module")
        dl, gl = (L.OASISDiscriminatorLoss(), L.OASISGeneratorLoss()) if proj else (L.BinaryCrossentropyDiscriminatorLoss(), L.BinaryCrossentropyGeneratorLoss())
        m = mod.GANCompressionModule(model=model, target_rate_config=cfg, discriminator=disc(cond, 4 if proj else 1), discriminator_loss=dl, generator_loss=gl, optimizer_config=oc, distortion_lam=0.75, distortion_loss=L.MSELoss(3.0),
                                     latent_projector=Projector() if proj else None, generator_weight=0.6, mc_sampling=bool(mc), **kw)
    m.quality = []
    m.log_quality_metrics = lambda output, images, prefix, dataset_name=None: m.quality.append((output, images.detach().clone(), prefix, dataset_name))
    m._opts, m._scheds = m.configure_optimizers()
    for o in m._opts:  # the framework counts optimiser steps
        base = o.step

        def stepped(*a, _b=base, **k):
            r = _b(*a, **k)
            m.trainer.global_step += 1
            return r
        o.step = stepped
    return m


def bpp(lik, pix):
    return -lik.flatten(1).log2().sum(1) / pix


def rate(out, images, step):
    pix = images.shape[-1] * images.shape[-2]
    tgt = CFG["target_bpp"] * CFG["target_factors"][int(step >= CFG["target_steps"][0])]
    lam2 = CFG["lam_levels"][1] * CFG["lam2_factors"][int(step >= CFG["lam2_steps"][0])]
    tot = bpp(out.latent_likelihoods, pix) + bpp(out.hyper_latent_likelihoods, pix)
    qt = bpp(out.quantized_latent_likelihoods, pix) + bpp(out.quantized_hyper_latent_likelihoods, pix)
    lam = torch.tensor([lam2 if float(v) > tgt else CFG["lam_levels"][0] for v in qt.detach()])
    return (lam * tot).mean(), float(qt.detach().mean()), tgt, lam2, min(abs(float(v) - tgt) for v in qt.detach())


def clipped(grads, clip):
    if not clip:
        return grads
    if clip[0] == "value":
        return [None if g is None else g.clamp(-clip[1], clip[1]) for g in grads]
    n = math.sqrt(sum(float(g.double().pow(2).sum()) for g in grads if g is not None))
    f = min(1.0, clip[1] / (n + 1e-6))
    return [None if g is None else g * f for g in grads]


def oasis(logits, target):
    lp = F.log_softmax(logits.flatten(2), 1)
    return -lp.gather(1, target.flatten(1).unsqueeze(1)).mean()


def reference(kind, r, batch, clip, cond, proj, mc, step):
    """One training step computed independently on reference parameters r = (model, disc, lists of params)."""
    model, d, mp, qp = r
    half = batch.shape[0] // 2
    gi, di = (batch[:half], batch[half:2 * half]) if mc and kind == "gan" else (batch, batch)
    res = {}
    out = model(gi)
    rl, qt, tgt, lam2, margin = rate(out, gi, step)
    dist = 3.0 * (out.image - gi).pow(2).mean()
    loss = 0.75 * dist + rl
    run = (lambda im, ctx: d(im, ctx)) if cond else (lambda im, ctx: d(im))
    if kind == "gan":
        lg = run(out.image, out.latent.detach())
        lab_g = Projector()(gi) if proj else None
        lab_d = Projector()(di) if proj else None
        g = oasis(lg, lab_g + 1) if proj else F.softplus(-lg).mean()
        loss = loss + 0.6 * g
        res["g"] = float(g)
    grads = torch.autograd.grad(loss, mp, allow_unused=True)
    res.update(model=clipped(grads, clip), loss=float(loss), dist=float(dist), rate=float(rl), qt=qt, tgt=tgt, lam2=lam2, margin=margin, gi=gi, di=di)
    fake_im, fake_lat = out.image.detach(), out.latent.detach()
    with torch.no_grad():
        for p, gr in zip(mp, res["model"]):
            if gr is not None:
                p -= LR["model"] * gr
    if kind == "gan":
        with torch.no_grad():
            lat_d = model(di).latent if mc else fake_lat
        fl, rl_ = run(fake_im, fake_lat), run(di, lat_d)
        if proj:
            dl = 0.5 * (oasis(rl_, lab_d + 1) + oasis(fl, torch.zeros_like(lab_d)))
        else:
            dl = 0.5 * (F.softplus(-rl_).mean() + F.softplus(fl).mean())
        dp = list(d.parameters())
        res["disc"] = clipped(torch.autograd.grad(dl, dp, allow_unused=True), clip)
        res["dloss"] = float(dl)
        with torch.no_grad():
            for p, gr in zip(dp, res["disc"]):
                if gr is not None:
                    p -= LR["disc"] * gr
    if qp:
        ql = model.hyper_bottleneck.loss()
        res["aux"] = torch.autograd.grad(ql, qp)
        res["qloss"] = float(ql)
        with torch.no_grad():
            for p, gr in zip(qp, res["aux"]):
                p -= LR["aux"] * gr
    return res


def toy(frozen):
    m = Toy()
    part = {"none": [], "bottleneck": [m.hyper_bottleneck], "encoder": [m.encoder]}[frozen]
    for s in part:
        for p in s.parameters():
            p.requires_grad_(False)
    return m


def images(which, b=4):
    n = b * 3 * 8 * 16
    k = {"train_a": 7, "train_b": 29, "val": 11}[which]
    return ((torch.arange(n, dtype=torch.float32) * k % 101) / 100).reshape(b, 3, 8, 16)


def same(a, b, tol=2e-4):
    if a is None or b is None:
        return (a is None or float(a.abs().max()) == 0) and (b is None or float(b.abs().max()) == 0)
    return torch.allclose(a, b, rtol=tol, atol=tol * max(1e-3, float(b.abs().max())))


def num(v):
    return float(v.detach()) if isinstance(v, torch.Tensor) else float(v)


def play(t, case, kind):
    cond, proj, mc = case.get("cond", 0), case.get("proj", 0), case.get("mc", 0)
    clip, depth = case["clip"], case["depth"]
    for n in range(1, depth + 1):
        for hist in itertools.product(OPS, repeat=n):
            log = []
            m = make(kind, toy(case.get("frozen", "none")), clip, log, cond, proj, mc)
            rm = toy(case.get("frozen", "none"))
            rd = disc(cond, 4 if proj else 1) if kind == "gan" else None
            r = (rm, rd) + tuple(rm.collect_parameters())
            mine = {"model": r[2], "aux": r[3], "disc": list(rd.parameters()) if rd else []}
            frozen = {k: p.detach().clone() for k, p in m.model.named_parameters() if not p.requires_grad}
            for i, op in enumerate(hist):
                last = i == n - 1
                x = images(op)
                before = {k: v.detach().clone() for k, v in m.named_parameters()}
                del log[:]
                m.events.clear()
                m.quality.clear()
                m.logged.clear()
                m.model.seen.clear()
                if proj:
                    m.latent_projector.seen.clear()
                step = m.trainer.global_step
                what = f"history {hist[:i + 1]}"
                keep = x.clone()
                if op == "val":
                    with torch.no_grad():
                        ok, _ = t.attempt(what, m.validation_step, x, 0)
                    if not ok:
                        return
                    if last:
                        t.check(all(torch.equal(before[k], v) for k, v in m.named_parameters()) and not log and not m.events, f"{what}: validation changed parameters")
                        with torch.no_grad():
                            out = rm(x)
                            rl, qt, tgt, lam2, margin = rate(out, x, step)
                            dist = 3.0 * (out.image - x).pow(2).mean()
                            tot = 0.75 * dist + rl
                            exp = {"distortion_loss": dist, "quantized_total_bpp": qt, "target": tgt, "lam2": lam2}
                            if kind == "gan":
                                lg = rd(out.image, out.latent) if cond else rd(out.image)
                                g = oasis(lg, Projector()(x) + 1) if proj else F.softplus(-lg).mean()
                                tot = tot + 0.6 * g
                                exp["generator_loss"] = g
                            if margin > 1e-4:
                                exp["rate_loss"] = rl
                                exp["total_model_loss" if kind == "gan" else "total_loss"] = tot
                        logged(t, m, "val", exp, what)
                        t.check(len(m.quality) == 1 and m.quality[0][2] == "val" and torch.equal(m.quality[0][1], x), f"{what}: quality is not measured on the validation images")
                else:
                    ok, _ = t.attempt(what, m.training_step, x, i)
                    if not ok:
                        return
                    res = reference(kind, r, keep, clip, cond, proj, mc, step)
                    if last:
                        t.check(torch.equal(x, keep), f"{what}: the batch was modified")
                        who = [w for w, _ in log]
                        want = ["model"] + (["disc"] if kind == "gan" else []) + (["aux"] if r[3] else [])
                        t.check(sorted(who) == sorted(want), f"{what}: optimisers stepped {who}, expected each of {want} once")
                        for w, grads in log:
                            exp = res.get(w)
                            if w == "model" and res["margin"] < 1e-4:
                                continue
                            if exp is not None:
                                t.check(len(grads) == len(exp) and all(same(a, b) for a, b in zip(grads, exp)), f"{what}: the {w} optimiser does not apply the gradient of its own loss")
                        for name, o, sc in zip(want, [None] * 3, m._scheds):
                            t.check(sc.n == sum(h != "val" for h in hist[:i + 1]), f"{what}: a schedule advanced {sc.n} times")
                        if clip:
                            cl = [e for e in m.events if e[0] == "clip"]
                            t.check(all(e[2] == clip[1] and e[3] == clip[0] for e in cl), f"{what}: clipping with other settings {cl}")
                        exp = {"distortion_loss": res["dist"], "quantized_total_bpp": res["qt"], "target": res["tgt"], "lam2": res["lam2"]}
                        if res["margin"] > 1e-4:
                            exp["rate_loss"] = res["rate"]
                            exp["total_model_loss" if kind == "gan" else "total_loss"] = res["loss"]
                        if kind == "gan":
                            exp["generator_loss"] = res["g"]
                            exp["discriminator_loss"] = res["dloss"]
                        if r[3]:
                            exp["quantile_loss"] = res["qloss"]
                        logged(t, m, "train", exp, what)
                        t.check(len(m.quality) == 1 and m.quality[0][2] == "train" and torch.equal(m.quality[0][1], res["gi"]) and tuple(m.quality[0][0].image.shape) == tuple(res["gi"].shape), f"{what}: quality is not measured on the images the model saw")
                        for k, v in frozen.items():
                            t.check(torch.equal(v, dict(m.model.named_parameters())[k]), f"{what}: the frozen parameter {k} moved")
                        if proj:
                            t.check(float(m.latent_projector.w) == 1 and not m.latent_projector.w.requires_grad, f"{what}: the label projector trained")
                    # the replayed parameters stay in step
                    if last:
                        own = dict(m.model.named_parameters())
                        ref = dict(rm.named_parameters())
                        t.check(all(torch.allclose(own[k], ref[k], rtol=1e-3, atol=1e-5) for k in own), f"{what}: model parameters {[k for k in own if not torch.allclose(own[k], ref[k], rtol=1e-3, atol=1e-5)]} differ from the reference training")
                        if rd:
                            own, ref = dict(m.discriminator.named_parameters()), dict(rd.named_parameters())
                            t.check(all(torch.allclose(own[k], ref[k], rtol=1e-3, atol=1e-5) for k in own), f"{what}: discriminator parameters differ from the reference training")
                t.step()
            t.state(hist)
            t.trace()


def logged(t, m, prefix, exp, what):
    for k, v in exp.items():
        g = m.logged.get(f"{prefix}/{k}")
        v = num(v)
        t.check(g is not None and abs(num(g) - v) <= 2e-4 * max(1.0, abs(v)), f"{what}: logged {prefix}/{k} = {g}, expected {v}")


def run_gan(t, case):
    play(t, case, "gan")


def run_target(t, case):
    play(t, case, "target")


def run_real(t, case):
    """The library's own autoencoder: every optimiser moves its own parameters only, in every freeze option."""
    from . import c02
    for kind, mc in (("gan", 0), ("gan", 1), ("target", 0)):
        if kind == "target" and (case["fb"] or case["cond"]):
            continue  # this module always trains the quantiles
        from neuralcompression.models import HiFiCAutoencoder
        torch.manual_seed(0)
        model = HiFiCAutoencoder(in_channels=3, latent_features=2, hyper_features=2, num_residual_blocks=0, freeze_encoder=bool(case["fe"]), freeze_bottleneck=bool(case["fb"]))
        for name, new in (("encoder", nets.ExactEncoder(3, 2, 4)), ("decoder", nets.ExactDecoder(3, 2, 4))):
            old = getattr(model, name)
            rg = next(old.parameters()).requires_grad
            new.train(old.training)
            for p in new.parameters():
                p.requires_grad_(rg)
            setattr(model, name, new)
        log = []
        m = make(kind, model, None, log, case["cond"], 0, mc)
        m.train()
        allowed = {o.who: {id(p) for g in o.param_groups for p in g["params"]} for o in m._opts}
        names = {id(p): n for n, p in m.named_parameters()}
        prev = {n: p.detach().clone() for n, p in m.named_parameters()}
        moves = []

        def watch(o):
            base = o.step

            def f(*a, **k):
                pre = {n: p.detach().clone() for n, p in m.named_parameters()}
                r = base(*a, **k)
                moves.append((o.who, {n for n, p in m.named_parameters() if not torch.equal(pre[n], p)}))
                return r
            o.step = f
        for o in m._opts:
            watch(o)
        for i in range(3):
            pre = {n: p.detach().clone() for n, p in m.named_parameters()}
            del moves[:]
            x = nets.image(4, 3, 64, 64, seed=i)
            ok, _ = t.attempt(f"{kind} step {i} of {case}", m.training_step, x, i)
            if not ok:
                return
            moved = {n for n, p in m.named_parameters() if not torch.equal(pre[n], p)}
            by = set().union(*[b for _, b in moves]) if moves else set()
            t.check(moved <= by, f"{kind} step {i} of {case}: parameters {sorted(moved - by)} changed outside an optimiser step")
            for w, b in moves:
                t.check({n for n in b} <= {names[q] for q in allowed[w]}, f"{kind} step {i} of {case}: the {w} optimiser moved {sorted(b - {names[q] for q in allowed[w]})}")
                t.check(bool(b), f"{kind} step {i} of {case}: the {w} optimiser moved nothing")
            t.check(not case["fe"] or not any(n.startswith("model.encoder") for n in moved), f"{kind} step {i} of {case}: the frozen encoder moved")
            t.check(not case["fb"] or not any(n.split(".")[1] in c02.BOTTLENECK for n in moved if n.startswith("model.")), f"{kind} step {i} of {case}: the frozen bottleneck moved")
            t.check(any(n.startswith("model.decoder") for n in moved), f"{kind} step {i} of {case}: the decoder did not train")
            t.state(kind, mc, i, core.digest(sorted(moved)))
            t.step()
        t.trace()


def run_split(t, case):
    """With Monte Carlo sampling the two halves are disjoint and equal in size for every batch size."""
    for b in range(2, 10):
        for mc in (0, 1):
            m = make("gan", toy("none"), None, [], 1, 1, mc)
            n = b * 3 * 8 * 16
            x = ((torch.arange(n, dtype=torch.float32) * 7 % 101) / 100).reshape(b, 3, 8, 16)
            x = x + torch.arange(b).reshape(-1, 1, 1, 1) * 1e-4   # all images differ
            ok, _ = t.attempt(f"batch of {b}, sampling {mc}", m.training_step, x.clone(), 0)
            t.state(b, mc)
            t.trace()
            if not ok:
                continue
            seen = m.model.seen
            ids = [[next((j for j in range(b) if torch.equal(row, x[j])), None) for row in s] for s in seen]
            if mc:
                h = b // 2
                t.check(ids and ids[0] == list(range(h)), f"batch of {b}: the model trained on images {ids[0]}, expected the first half")
                t.check(len(ids) == 2 and ids[1] == list(range(h, 2 * h)), f"batch of {b}: the discriminator's real images are {ids[1:]}, expected the second half")
            else:
                t.check(all(i == list(range(b)) for i in ids) and ids, f"batch of {b}: the model saw images {ids}")
            pj = [[next((j for j in range(b) if torch.equal(row, x[j])), None) for row in s] for s in m.latent_projector.seen]
            want = {tuple(range(b // 2)), tuple(range(b // 2, b // 2 * 2))} if mc else {tuple(range(b))}
            t.check({tuple(p) for p in pj} == want, f"batch of {b}, sampling {mc}: labels computed for {pj}")


TRAIN = ["train_psnr", "train_msssim", "train_mse"]
VAL = ["eval_psnr", "eval_msssim", "eval_mse", "eval_lpips"]
TEST = ["test_msssim", "test_mse", "test_lpips", "test_dists"]
FIDS = ["test_fid", "test_fid_swav", "test_kid"]


def metric_module():
    from . import fakelightning as fl
    mod = fl.illm("image_module")
    m = mod.ImageModule()
    for n in TRAIN + VAL + ["eval_fid"]:
        setattr(m, n, fl.Recorder())
    for n in TEST + FIDS:
        setattr(m, n, fl.Recorder())
    m.test_metrics_set = True
    m.patch_size = 4
    return mod, m


def run_metrics(t, case):
    """Every metric receives the clamped prediction first and the original second, at its own scale."""
    from neuralcompression import HyperpriorOutput
    from neuralcompression.metrics import calc_psnr
    mod, m = metric_module()
    orig = getattr(mod.ncm, "update_patch_fid")
    patched = []

    def fake(input_images, pred, fid_metric=None, fid_swav_metric=None, kid_metric=None, patch_size=256, **k):
        patched.append((input_images, pred, fid_metric, fid_swav_metric, kid_metric, patch_size))
    mod.ncm.update_patch_fid = fake
    try:
        for b, h, w in itertools.product((1, 2, 3), (4, 8), (4, 12)):
            n = b * 3 * h * w
            x = ((torch.arange(n) * 37 % 256).float() / 255).reshape(b, 3, h, w)
            for lo, hi, lay in itertools.product((0.0, -0.5), (1.0, 1.5), ("plain", "channels_last")):
                y = (lo + (hi - lo) * ((torch.arange(n) * 11 % 97).float() / 96)).reshape(b, 3, h, w)
                xx = x
                if lay == "channels_last":
                    y, xx = y.to(memory_format=torch.channels_last), x.to(memory_format=torch.channels_last)
                pred = y.clamp(0, 1)
                p255, x255 = torch.round(pred * 255), torch.round(x * 255)
                for form in ("tensor", "output"):
                    o = y if form == "tensor" else HyperpriorOutput(image=y, latent=y, latent_likelihoods=y, quantized_latent_likelihoods=y, hyper_latent=y, hyper_latent_likelihoods=y, quantized_hyper_latent_likelihoods=y)
                    for prefix, ds in (("train", None), ("val", None), ("test", "kodak"), ("test", "clic2020"), ("test", "div2k_valid"), ("test", "coco30k")):
                        m.reset_all_metrics()
                        m.logged.clear()
                        del patched[:]
                        what = f"{prefix} {ds} prediction {tuple(y.shape)} in [{lo}, {hi}] {lay} {form}"
                        ok, _ = t.attempt(what, m.log_quality_metrics, o, xx, prefix=prefix, dataset_name=ds)
                        t.state(b, h, w, lo, hi, lay, form, prefix, ds)
                        t.trace()
                        if not ok:
                            continue
                        used = {"train": TRAIN, "val": VAL, "test": TEST}[prefix]
                        for name in TRAIN + VAL + TEST:
                            calls = getattr(m, name).calls
                            t.check(len(calls) == (1 if name in used else 0), f"{what}: {name} was updated {len(calls)} times")
                            if name in used and len(calls) == 1:
                                a = calls[0][0]
                                unit = name.endswith("lpips") or name.endswith("dists")
                                wp, wx = (pred, x) if unit else (p255, x255)
                                t.check(torch.equal(a[0].reshape(b, -1), wp.reshape(b, -1)) and torch.equal(a[1].reshape(b, -1), wx.reshape(b, -1)), f"{what}: {name} did not receive the clamped prediction and the original")
                        p8, x8 = p255.to(torch.uint8), x255.to(torch.uint8)
                        fids = {"train": [], "val": ["eval_fid"], "test": FIDS}[prefix]
                        clic = ds is not None and ("clic" in ds or "div2k" in ds)
                        if clic:
                            t.check(len(patched) == 1 and torch.equal(patched[0][0], x) and torch.equal(patched[0][1], pred) and patched[0][2] is m.test_fid and patched[0][3] is m.test_fid_swav and patched[0][4] is m.test_kid and patched[0][5] == m.patch_size, f"{what}: patch metrics not fed with images and prediction")
                        else:
                            t.check(not patched, f"{what}: patch metrics used")
                        for name in ["eval_fid"] + FIDS:
                            calls = getattr(m, name).calls
                            if name in fids and not clic:
                                real = [c for c in calls if c[1].get("real", c[0][1] if len(c[0]) > 1 else None) is True]
                                fakes = [c for c in calls if c[1].get("real", c[0][1] if len(c[0]) > 1 else None) is False]
                                t.check(len(calls) == 2 and len(real) == 1 and len(fakes) == 1 and torch.equal(real[0][0][0], x8) and torch.equal(fakes[0][0][0], p8) and real[0][0][0].dtype == fakes[0][0][0].dtype == torch.uint8, f"{what}: {name} does not compare originals (real) with predictions")
                            else:
                                t.check(not calls, f"{what}: {name} updated")
                        if prefix == "test":
                            g = m.logged.get(f"test/{ds}_psnr")
                            t.check(g is not None and math.isclose(num(g), num(calc_psnr(p255, x255)), rel_tol=1e-5), f"{what}: logged PSNR {g}")
                        t.step()
                    t.must_raise("an unknown prefix", ValueError, m.log_quality_metrics, o, xx, prefix="validate")
                    t.must_raise("test without a data set", ValueError, m.log_quality_metrics, o, xx, prefix="test")
        run_reports(t, mod, m)
        for hook in ("on_validation_epoch_start", "on_test_epoch_start", "reset_all_metrics"):
            for n in TRAIN + VAL + TEST + FIDS + ["eval_fid"]:
                getattr(m, n).update(1)
            getattr(m, hook)()
            t.check(all(not getattr(m, n).calls for n in TRAIN + VAL + TEST + FIDS + ["eval_fid"]), f"{hook} leaves stale metric values")
            t.state(hook)
        for err in (None, IndexError, ValueError, KeyError):
            m.eval_fid.update(1)

            def comp():
                if err:
                    raise err("x")
                return torch.tensor(3.0)
            m.eval_fid.compute = comp
            m.logged.clear()
            if err is KeyError:
                t.must_raise("an unexpected metric failure", KeyError, m.on_validation_epoch_end)
            else:
                t.attempt(f"validation end with {err}", m.on_validation_epoch_end)
                t.check(not m.eval_fid.calls, f"validation end with {err}: FID keeps its state")
                t.check((num(m.logged["val/fid"]) == 3.0) if err is None else "val/fid" not in m.logged, f"validation end with {err}: logged {m.logged}")
            t.state("end", str(err))
    finally:
        mod.ncm.update_patch_fid = orig


LOGS = {"psnr": "psnr", "mse": "mse", "ms_ssim": "msssim", "lpips": "lpips", "dists": "dists"}


def fl_normalize(r):
    a, k = r.args
    return bool(k.get("normalize", a[2] if len(a) > 2 else False))


def run_reports(t, mod, m):
    """Every reported name carries the value of the metric it names, for all value assignments."""
    from . import fakelightning as fl

    class Value(fl.Recorder):
        def __init__(self, v):
            super().__init__()
            self.v = v

        def forward(self, *a, **k):
            super().forward(*a, **k)
            return torch.tensor(self.v)

        def compute(self):
            return torch.tensor(self.v)

    class Pair(Value):
        def compute(self):
            return torch.tensor(self.v), torch.tensor(-5.0)
    kept = {n: getattr(m, n) for n in TRAIN + VAL + TEST + FIDS + ["eval_fid"]}
    x = (torch.arange(48).float() / 48).reshape(1, 3, 4, 4)
    y = x.flip(-1)
    for mse, lp, other in itertools.product((0.0, 1.5, 100.0), (0.0, 0.25, 2.0), (3.0, 7.0)):
        vals = {}
        for i, n in enumerate(kept):
            vals[n] = mse if n.endswith("_mse") else lp if n.endswith("lpips") else other + i
            setattr(m, n, (Pair if n == "test_kid" else Value)(vals[n]))
        for prefix, ds, group in (("train", None, TRAIN), ("val", None, VAL), ("test", "kodak", TEST), ("test", "clic2020", TEST), ("test", "coco", TEST)):
            m.logged.clear()
            stem = prefix + "/" + (ds + "_" if ds else "")
            what = f"{prefix} {ds} with mse={mse} lpips={lp} others from {other}"
            ok, _ = t.attempt(what, m.log_quality_metrics, y, x, prefix=prefix, dataset_name=ds)
            t.state("report", prefix, ds, mse, lp, other)
            t.trace()
            if not ok:
                continue
            for name, metric in LOGS.items():
                owner = next((n for n in group if n.split("_", 1)[1] == metric), None)
                got = m.logged.get(stem + name)
                if owner:
                    v = num(got.compute()) if isinstance(got, fl.Recorder) else None if got is None else num(got)
                    t.check(v == vals[owner], f"{what}: {stem + name} reports {v}, the metric {owner} has {vals[owner]}")
            if prefix != "train":
                g = m.logged.get(stem + "hific_distortion")
                want = 0.075 * 2 ** -5 * mse + lp
                t.check(g is not None and math.isclose(num(g), want, rel_tol=1e-5, abs_tol=1e-9), f"{what}: HiFiC distortion {g}, expected {want}")
        for ds in ("kodak", "clic2020", "coco"):
            m.logged.clear()
            m.test_dataset_name = ds
            ok, _ = t.attempt(f"end of the test on {ds}", m.on_test_epoch_end)
            if ok:
                for name, owner in (("fid", "test_fid"), ("fid_swav", "test_fid_swav"), ("kid", "test_kid")):
                    g = m.logged.get(f"test/{ds}_{name}")
                    want = 0.0 if ds == "kodak" else vals[owner]
                    t.check(g is not None and num(g) == want, f"end of the test on {ds}: {name} {g}, expected {want}")
    for n, v in kept.items():
        setattr(m, n, v)
    # metrics of 8-bit images know their range; perceptual ones know theirs is 0..1
    f = mod.ImageModule()
    for n in ("train_psnr", "eval_psnr", "train_msssim", "eval_msssim"):
        r = getattr(f, n)
        dr = r.args[1].get("data_range", r.args[0][0] if r.args[0] else None) if isinstance(r, fl.Recorder) else r.data_range
        t.check(num(dr) == 255.0, f"{n} assumes a range of {dr}")
    t.check(fl_normalize(f.eval_lpips), "LPIPS of the validation images (range 0..1) is not rescaled")
    old = {n: getattr(mod.ncm, n) for n in ("DeepImageStructureTextureSimilarity", "FrechetInceptionDistance", "FrechetInceptionDistanceSwAV", "KernelInceptionDistance")}
    try:
        for n in old:
            setattr(mod.ncm, n, type(n, (fl.Recorder,), {}))
        kinds = {"test_dists": "DeepImageStructureTextureSimilarity", "test_fid": "FrechetInceptionDistance", "test_fid_swav": "FrechetInceptionDistanceSwAV", "test_kid": "KernelInceptionDistance"}
        for hist in itertools.product(("kodak", "clic2020"), repeat=3):
            f = mod.ImageModule()
            first = None
            for ds in hist:
                ok, _ = t.attempt(f"selecting the data set {hist}", f.update_test_dataset_name, ds)
                if not ok:
                    return
                cur = [getattr(f, n) for n in TEST + FIDS]
                first = first or cur
                t.check(f.test_dataset_name == ds and all(a is b for a, b in zip(cur, first)), f"data sets {hist}: test metrics replaced or the name is wrong")
                for n, k in kinds.items():
                    t.check(type(getattr(f, n)).__name__ == k, f"{n} is a {type(getattr(f, n)).__name__}")
                    t.check(k == "DeepImageStructureTextureSimilarity" or not getattr(f, n).args[1].get("normalize", k.endswith("SwAV")) or k.endswith("SwAV"), f"{n} expects other images than it is given")
                t.check(num(f.test_msssim.data_range) == 255.0 and fl_normalize(f.test_lpips), f"data sets {hist}: test metric ranges")
            t.state("datasets", hist)
    finally:
        for n, v in old.items():
            setattr(mod.ncm, n, v)
    t.check(f.patch_size == 256, f"patch metrics use patches of {f.patch_size}")


def run_test(t, case):
    """The test step reports the size of the pickled code and the quality of what is decoded from it."""
    from . import c01
    from neuralcompression.metrics import pickle_size_of
    for b, h, w in itertools.product((1, 2), (40, 64, 96), (64, 72)):
        m = make("target", c01.make(3, 4, 4, 4.0), None, [])
        m.eval()
        x = nets.image(b, 3, h, w, seed=h + w)
        m.test_dataset_name = None
        with torch.no_grad():
            t.must_raise("test without a data set", ValueError, m.test_step, x, 0)
            m.test_dataset_name = "kodak"
            m.reset_all_metrics = lambda: None
            m.on_test_epoch_start()
            for form in ("tensor", "pair"):
                m.logged.clear()
                m.quality.clear()
                what = f"test step {b}x{h}x{w} {form}"
                ok, loss = t.attempt(what, m.test_step, x if form == "tensor" else (x, torch.zeros(b)), 0)
                t.state(b, h, w, form)
                t.trace()
                if not ok:
                    continue
                c = m.model.compress(x, force_cpu=False)
                y = m.model.decompress(c, force_cpu=False)
                want = pickle_size_of(c) * 8 / (b * h * w)
                g = m.logged.get("test/kodak_bpp")
                t.check(g is not None and math.isclose(num(g), want, rel_tol=1e-9), f"{what}: {g} bits per pixel, the code has {want}")
                t.check(len(m.quality) == 1 and torch.equal(m.quality[0][0], y) and torch.equal(m.quality[0][1], x) and m.quality[0][2:] == ("test", "kodak"), f"{what}: quality is not measured on the decoded images of the data set")
                t.check(math.isclose(num(loss), 3.0 * float((y - x).pow(2).mean()), rel_tol=1e-5), f"{what}: distortion {loss}")
                t.step()


def run_case(t, case):
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
