"""C41: shipped configurations: every combination of the options of every project composes and builds what the scripts use."""
import contextlib
import io
import itertools
import math
import os
import sys
import types
import warnings
from pathlib import Path
import numpy as np
import torch
import torch.nn as nn
from PIL import Image
from . import core, fsenv, hydralite as H

PID = "C41"
ASSUMPTIONS = ["hydra and omegaconf (not installed) are replaced by a stand-in that follows their documented composition, interpolation and instantiation rules; the projects' own resolvers are used",
               "lightning, wandb, craystack, improved_diffusion and lion_pytorch are replaced by stand-ins with their published signatures",
               "pretrained weights are not downloaded: networks with the same architecture are used",
               "values that must come from the command line (data directories, resource names) are given by the harness",
               "the GAN modules are combined with the optimiser configuration that has a discriminator optimiser, as documented"]
CASE_LIMIT = 700
MAX_JOBS = 4
_cwd = os.getcwd()


def bounds(tier):
    return ("all combinations of the groups of the shipped configurations: VCT 2 x 2 transforms x 2 data modules x 3 optimisers x 5 schedules x 2 test settings (x launcher mode), MS-ILLM 2 losses x 2 optimisers x 9 rates x 3 initialisations without GAN and all "
            "2 x 9 x 3 x 2 with GAN, DVC all 31 sets of stages, bits-back diffusion 3 scripts x 2 data sets x 2 diffusions x 1..4 processes; schedules over the whole of training; one training and validation step of each network%s" % (", and of each stage" if tier != "quick" else ""))


def cases(tier):
    for a, s in itertools.product(("elic", "gdn"), repeat=2):
        yield {"kind": "vct", "a": a, "s": s}
    for d in ("mse_distortion", "mse_lpips"):
        yield {"kind": "illm", "d": d}
        yield {"kind": "gan", "d": d}
    yield {"kind": "illmfull"}
    yield {"kind": "ganstep"}
    yield {"kind": "tests"}
    for n in range(1, 32, 6):
        yield {"kind": "dvc", "n": n}
    for i in range(5):
        yield {"kind": "dvcstep", "i": i}
    for s in ("encode", "compute_vlb", "train"):
        for w in (1, 2, 3, 4):
            yield {"kind": "bbd", "s": s, "w": w}


def conf(project, sub):
    return os.path.join(core.REPO, "projects", project, sub)


@contextlib.contextmanager
def quiet(d):
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        os.chdir(_cwd)


def load(project, name):
    from . import c37
    H.install()
    return c37.load(project, name)


class Lion(torch.optim.Optimizer):
    """The published signature of lion_pytorch.Lion."""

    def __init__(self, params, lr=1e-4, betas=(0.9, 0.99), weight_decay=0.0, use_triton=False, decoupled_weight_decay=False):
        super().__init__(params, dict(lr=lr, betas=betas, weight_decay=weight_decay))


def given(raw, root):
    """What the user has to supply on the command line."""
    return {k: os.path.join(root, "data") for k in H.missing(raw) if not k.startswith("hydra.")}


def composed(t, what, d, name, root, **k):
    ok, raw = t.attempt(f"{what}: composing", H.compose, d, name, **k)
    if not ok:
        return None
    over = dict(k.pop("over", None) or {})
    over.update(given(raw, root))
    ok, raw = t.attempt(f"{what}: composing", H.compose, d, name, over=over, **k)
    ok, cfg = t.attempt(f"{what}: interpolations", H.resolve, raw)
    return cfg if ok else None


def rates(opt, sched, n):
    out = [opt.param_groups[0]["lr"]]
    for _ in range(n):
        sched.step()
        out.append(opt.param_groups[0]["lr"])
    return np.array([float(x) for x in out])


# ------------------------------------------------------------------------- VCT

def run_vct(t, case):
    mod, fl = load("torch_vct", "model_train")
    if "torchvision.transforms.functional_tensor" not in sys.modules:
        import torchvision.transforms._functional_tensor as ft
        sys.modules["torchvision.transforms.functional_tensor"] = ft
    sys.modules.setdefault("lion_pytorch", types.ModuleType("lion_pytorch")).Lion = Lion
    from datamodules.video_data_api import VideoDataset
    d = conf("torch_vct", "config")
    H.HEAVY.add("model_pipeline.VCTPipeline")
    g = H.groups(d)
    import datamodules.kinetics
    import datamodules.vimeo
    one = VideoDataset(video_tensor=torch.rand(1, 2, 3, 64, 64))
    for c in (datamodules.kinetics.KineticsDataModule, datamodules.vimeo.VimeoDataModule):
        c.setup = lambda self, stage=None: None
        c.train_dataloader = c.val_dataloader = lambda self: [one]
    keep = torch.distributed.destroy_process_group
    torch.distributed.destroy_process_group = lambda *a, **k: None
    stepped = False
    try:
        for dm, o, s, td, mode in itertools.product(g["datamodule"], g["optim"], g["scheduler"], [None] + g["test_datamodule"], [None] + g["mode"]):
            if mode is not None and (o, dm) != (g["optim"][0], g["datamodule"][0]):
                continue
            what = f"analysis {case['a']}, synthesis {case['s']}, data {dm}, optimiser {o}, schedule {s}, test data {td}, launcher {mode}"
            with fsenv.scratch() as root:
                os.makedirs(os.path.join(root, "data"))
                cfg = composed(t, what, d, "train_config", root, choice=dict(analysis_transform=case["a"], synthesis_transform=case["s"], datamodule=dm, optim=o, scheduler=s, test_datamodule=td), add=[("mode", mode)] if mode else [])
                if cfg is None:
                    continue
                fl.Trainer.made.clear()
                with quiet(root):
                    ok, _ = t.attempt(what, mod.main, cfg)
                if not ok:
                    continue
                tr = [x for x in fl.Trainer.made if x.runs]
                kinds = [r[0] for x in tr for r in x.runs]
                t.check(kinds == ["fit"] + ["test"] * (td is not None), f"{what}: ran {kinds}")
                t.check(tr[0].kwargs["max_steps"] == cfg.trainer.max_steps > 0, f"{what}: trains for {tr[0].kwargs['max_steps']} steps")
                k = tr[0].runs[0][2]
                m = k.get("model") or tr[0].runs[0][1][0]
                ok, oc = t.attempt(what + ": optimisers", m.configure_optimizers)
                if ok:
                    opt, sc = oc["optimizer"], oc["lr_scheduler"]
                    lr = cfg.training_loop.learning_rate
                    t.check(sc["interval"] == "step" and sc["frequency"] == cfg.training_loop.lr_annealing_frequency, f"{what}: schedule applied every {sc['frequency']} {sc['interval']}s")
                    t.check(opt.defaults["lr"] == lr and {id(p) for gr in opt.param_groups for p in gr["params"]} <= {id(p) for p in m.parameters()}, f"{what}: base learning rate {opt.defaults['lr']}")
                    n = cfg.trainer.max_steps // sc["frequency"]
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        ok, r = t.attempt(what + ": schedule", rates, opt, sc["scheduler"], n - 1)
                    if ok:
                        t.check(bool(np.isfinite(r).all() and (r >= 0).all() and (r <= lr * (1 + 1e-9)).all()) and abs(r.max() - lr) <= 1e-9 * lr, f"{what}: learning rates from {r.min()} to {r.max()} over {n} applications, configured {lr}")
                        t.check(int((r > 0).sum()) >= n - 1, f"{what}: learning rate is zero in {int((r == 0).sum())} of {n} intervals")
                    t.step(n)
                if not stepped:
                    stepped = True
                    torch.manual_seed(0)
                    b = VideoDataset(video_tensor=torch.rand(1, 2, 3, 64, 64))
                    m.train()
                    ok, loss = t.attempt(what + ": training step", m.training_step, b, 0)
                    if ok:
                        ok, _ = t.attempt(what + ": gradient", loss.backward)
                        t.check(bool(torch.isfinite(loss)), f"{what}: training loss {float(loss)}")
                        none = [n for n, p in m.named_parameters() if p.requires_grad and p.grad is None and not n.endswith("quantiles")]
                        if "find_unused_parameters_false" in str(cfg.trainer.get("strategy")):
                            t.check(not none, f"{what}: parameters without gradient {none[:4]} under strategy {cfg.trainer.strategy}")
                        m.zero_grad(set_to_none=True)
                    m.eval()
                    with torch.no_grad():
                        ok, out = t.attempt(what + ": forward", m, b)
                        if ok:
                            t.check(tuple(out[0].shape) == (1, 2, 3, 64, 64), f"{what}: reconstruction of shape {tuple(out[0].shape)}")
                        m.logged.clear()
                        t.attempt(what + ": validation step", m.validation_step, b, 0)
                    mon = cfg.checkpoint.callback.monitor
                    t.check(mon in m.logged and math.isfinite(float(m.logged[mon])), f"{what}: checkpoints are chosen by {mon}, validation logs {sorted(m.logged)}")
                t.state(dm, o, s, td, mode)
                t.trace()
    finally:
        torch.distributed.destroy_process_group = keep


# ------------------------------------------------------------------------ ILLM

SMALL = {"model.latent_features": 8, "model.hyper_features": 8, "model.num_residual_blocks": 1}


def illm():
    mod, fl = load("illm", "train")
    H.HEAVY.update({"neuralcompression.models.HiFiCAutoencoder", "neuralcompression.models.ConditionalUnetDiscriminator", "neuralcompression.models.VqVaeXCiTAutoencoder"})
    return mod, fl


class Pictures:
    """A data module with any number of images."""

    def setup(self, stage=None):
        self.train_dataset = self.eval_dataset = self

    def __getitem__(self, i):
        return torch.full((3, 4, 4), float(i % 7))


class Hub:
    """torch.hub.load: the entry points of the repository's hubconf, without weights."""

    def __init__(self):
        self.calls, self.nets = [], {}

    def __enter__(self):
        self.old = torch.hub.load
        torch.hub.load = self
        return self

    def __exit__(self, *a):
        torch.hub.load = self.old

    def __call__(self, github, model, *a, force_reload=False, **k):
        assert github.split(":")[0] == "facebookresearch/NeuralCompression", github
        import importlib.util
        if model not in self.nets:
            spec = importlib.util.spec_from_file_location("hubconf", os.path.join(core.REPO, "hubconf.py"))
            hub = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(hub)
            self.nets[model] = getattr(hub, model)(pretrained=False)
        self.calls.append(model)
        return self.nets[model]


def shapes(m):
    return {n: tuple(p.shape) for n, p in m.named_parameters()}


def saved(root, name, cfgnode):
    """A checkpoint of this network as the trainer writes it."""
    m = H.instantiate(cfgnode)
    path = os.path.join(root, name)
    sd = {"model." + n: p + 1 if p.is_floating_point() else p for n, p in m.state_dict().items()}
    torch.save({"state_dict": {**sd, "other.w": torch.zeros(1)}}, path)
    return path, sd


def schedule(t, what, module, cfg, names):
    ok, oc = t.attempt(what + ": optimisers", module.configure_optimizers)
    if not ok:
        return
    opts, scheds = oc
    scheds = [s["scheduler"] if isinstance(s, dict) else s for s in scheds]
    nopt = len(names)
    t.check(len(opts) == nopt and len(scheds) == nopt, f"{what}: {len(opts)} optimisers, {len(scheds)} schedules")
    ids = [{id(p) for g in o.param_groups for p in g["params"]} for o in opts]
    t.check(all(not a & b for a, b in itertools.combinations(ids, 2)) and all(ids), f"{what}: optimisers share parameters or have none")
    for n, o, s in zip(names, opts, scheds):
        lr = cfg.optimizer[n]["lr"]
        t.check(o.defaults["lr"] == lr, f"{what}: {n} base learning rate {o.defaults['lr']} instead of {lr}")
        # the schedule is a function of the step: look at it over the whole of training
        last = cfg.trainer.max_steps
        for at in sorted({0, 1, 9999, 10000, 10001, last - 1, last, *range(0, last, max(1, last // 200))}):
            s.last_epoch = at
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ok, v = t.attempt(f"{what}: {n} at step {at}", s.get_lr)
            if ok:
                v = [float(x) for x in v]
                t.check(all(0 <= x <= lr * (1 + 1e-9) and math.isfinite(x) for x in v), f"{what}: {n} learning rate {v} at step {at}, configured {lr}")


def run_illm(t, case):
    mod, fl = illm()
    from . import c14
    d = conf("illm", "conf")
    g = H.groups(d)
    with fsenv.scratch() as root, Hub() as hub, c14.patched():
        for o, r, pre in itertools.product(g["optimizer"], g["rate_target"], ("none", "path")):
            over = dict(SMALL)
            what = f"loss {case['d']}, optimiser {o}, rate {r}, initialisation {pre}"
            add = [("pretrained_autoencoder", "example")] if pre == "path" else []
            cfg = composed(t, what, d, "config", root, choice=dict(distortion_loss=case["d"], optimizer=o, rate_target=r), add=add, over=over)
            if cfg is None:
                continue
            H.MADE.clear()
            if pre == "path":
                ok, pair = t.attempt(what + ": network", saved, root, "a.ckpt", cfg.model)
                if not ok:
                    continue
                cfg.pretrained_autoencoder.path, sd = pair
                H.MADE.clear()
            with quiet(root):
                ok, m = t.attempt(what, mod.build_module, cfg)
            if not ok:
                continue
            if pre == "path":
                t.check(all(torch.equal(v, sd["model." + n]) for n, v in m.model.state_dict().items()), f"{what}: weights are not those of the checkpoint")
            t.check(m.distortion_lam == cfg.lightning_module.distortion_lam if hasattr(m, "distortion_lam") else True, f"{what}: distortion weight")
            tc = H.instantiate(cfg.rate_target)
            if r.startswith("target-"):
                t.check(tc.target_bpp == float(r[7:]), f"{what}: target of {tc.target_bpp} bits per pixel")
            schedule(t, what, m, cfg, ["model_opt", "aux_opt"])
            with quiet(root):
                ok, tr = t.attempt(what + ": trainer", mod.build_trainer, cfg, Pictures(), m)
            if ok:
                t.check(tr.kwargs["max_steps"] == 2 * cfg.max_steps, f"{what}: trainer runs {tr.kwargs['max_steps']} optimiser steps for {cfg.max_steps} steps")
            t.state(o, r, pre)
            t.trace()
        ok, dm = t.attempt("data module", H.instantiate, cfg.data, val_batch_size=None, open_images_root=root)
        t.check(ok and (dm.batch_size, dm.workers) == (cfg.data.batch_size, cfg.data.workers), "data module settings")


def run_illmfull(t, case):
    """The full-size network: one validation step logs what checkpoints are chosen by; the hub network has its architecture."""
    mod, fl = illm()
    d = conf("illm", "conf")
    with fsenv.scratch() as root, Hub() as hub:
        for add, n in (([], 0), ([("pretrained_autoencoder", "nogan_target0.14bpp")], 1)):
            cfg = composed(t, "default configuration", d, "config", root, add=add)
            if cfg is None:
                return
            ref = shapes(H.instantiate(cfg.model))
            with quiet(root):
                ok, m = t.attempt(f"default configuration {add}", mod.build_module, cfg)
            if not ok:
                continue
            t.check(shapes(m.model) == ref and len(hub.calls) == n, f"{add}: network of other shape than configured")
            t.state(n)
        torch.manual_seed(0)
        m.eval()
        m.logged.clear()
        with torch.no_grad():
            ok, _ = t.attempt("validation step", m.validation_step, torch.rand(1, 3, 192, 192), 0)
        mon = cfg.checkpoint.callback.monitor
        t.check(mon in m.logged, f"checkpoints are chosen by {mon}, validation logs {sorted(m.logged)}")
        t.check(cfg.checkpoint.callback.mode == ("max" if "ssim" in mon or "psnr" in mon else "min"), f"checkpoints chosen by {cfg.checkpoint.callback.mode} {mon}")
        t.trace()


GAN = {"discriminator": "condunet_ch1025_factor8_context220", "latent_projector": "vqvae_xcit_p8_ch64_cb1024_h8"}


def run_gan(t, case):
    mod, fl = illm()
    from . import c14
    d = conf("illm", "conf")
    g = H.groups(d)
    with fsenv.scratch() as root, Hub() as hub, c14.patched():
        for disc, lp, r, pre, pl, fr in itertools.product(g["discriminator"], g["latent_projector"], g["rate_target"], ("none", "hub"), ("none", "hub", "path"), (True, False)):
            if pre == "hub" and not fr and r != g["rate_target"][0]:
                continue
            what = f"GAN {disc}, {lp}, loss {case['d']}, rate {r}, initialisation {pre}, projector {pl}, frozen {fr}"
            add = [("discriminator", disc), ("latent_projector", lp)]
            if pre == "hub":
                add.append(("pretrained_autoencoder", "nogan_target0.14bpp"))
            if pl != "none":
                add.append(("pretrained_latent_autoencoder", "20221108_vqvae_xcit_p8_ch64_cb1024_h8" if pl == "hub" else "example_local"))
            over = {"model.freeze_encoder": fr, "model.freeze_bottleneck": fr, "lightning_module.generator_weight": 0.008}
            cfg = composed(t, what, d, "config", root, choice=dict(distortion_loss=case["d"], optimizer="model_adamw_disc_const", rate_target=r), add=add, over=over)
            if cfg is None:
                continue
            if pl == "path":
                ok, pair = t.attempt(what + ": projector", saved, root, "p.ckpt", cfg.latent_projector.autoencoder)
                if not ok:
                    continue
                cfg.pretrained_latent_autoencoder.path = pair[0]
            n = len(hub.calls)
            with quiet(root):
                ok, m = t.attempt(what, mod.build_module, cfg)
            if not ok:
                continue
            t.check(len(hub.calls) - n == (pre == "hub") + (pl == "hub"), f"{what}: loaded {hub.calls[n:]} from the hub")
            proj = [k for k in m.modules() if type(k).__name__ == cfg.latent_projector.projector._target_.split(".")[-1]]
            t.check(len(proj) == 1 and all(not p.requires_grad for p in proj[0].parameters()) and not proj[0].training, f"{what}: label network is missing or trained")
            if pl != "none":
                t.check(shapes(H.instantiate(cfg.latent_projector.autoencoder)) == {k: v for k, v in shapes(hub.nets[hub.calls[-1]] if pl == "hub" else H.instantiate(cfg.latent_projector.autoencoder)).items()}, f"{what}: pretrained label network has another shape than configured")
            # pretrained or not, what the configuration freezes is not trained
            m.train()
            fixed = [m.model.encoder, m.model.hyper_analysis, m.model.hyper_synthesis_mean, m.model.hyper_synthesis_scale, m.model.hyper_bottleneck, m.model.latent_bottleneck]
            t.check(all((not q.requires_grad) == fr for k in fixed for q in k.parameters()) and all(q.requires_grad for q in m.model.decoder.parameters()), f"{what}: encoder and bottleneck are {'trained' if fr else 'not trained'}")
            if pre == "hub":
                ref = hub.nets[hub.calls[n]]
                t.check(all(torch.equal(a, b) for a, b in zip(m.model.parameters(), ref.parameters())), f"{what}: weights are not those of the hub model")
            names = ["model_opt", "discriminator_opt"] + ["aux_opt"] * (not fr)
            schedule(t, what, m, cfg, names)
            with quiet(root):
                ok, tr = t.attempt(what + ": trainer", mod.build_trainer, cfg, Pictures(), m)
            if ok:
                t.check(tr.kwargs["max_steps"] == len(names) * cfg.max_steps, f"{what}: trainer runs {tr.kwargs['max_steps']} optimiser steps for {cfg.max_steps} steps")
            t.state(r, pre, pl, fr)
            t.trace()


def run_ganstep(t, case):
    """Discriminator, label network and autoencoder of the shipped configuration fit together."""
    mod, fl = illm()
    from . import c14
    d = conf("illm", "conf")
    g = H.groups(d)
    with fsenv.scratch() as root, c14.patched():
        for disc, lp in itertools.product(g["discriminator"], g["latent_projector"]):
            what = f"GAN {disc}, {lp}"
            cfg = composed(t, what, d, "config", root, choice=dict(optimizer="model_adamw_disc_const"), add=[("discriminator", disc), ("latent_projector", lp)])
            if cfg is None:
                continue
            ok, nets = t.attempt(what, lambda: (H.instantiate(cfg.model).eval(), H.instantiate(cfg.discriminator.model).eval(), H.instantiate(cfg.latent_projector.projector, H.instantiate(cfg.latent_projector.autoencoder)).eval()))
            if not ok:
                continue
            net, dis, proj = nets
            torch.manual_seed(1)
            x = torch.rand(1, 3, 128, 128)
            with torch.no_grad():
                ok, out = t.attempt(what + ": autoencoder", net, x)
                ok2, lab = t.attempt(what + ": labels", proj, x)
                if not (ok and ok2):
                    continue
                ok, logits = t.attempt(what + ": discriminator", dis, out.image, *([out.latent] if dis.is_conditional else []))
            if not ok:
                continue
            classes = logits.shape[1]
            t.check(lab.numel() == logits.numel() // classes, f"{what}: {lab.numel()} labels for {logits.numel() // classes} discriminator outputs")
            t.check(int(lab.min()) >= 0 and int(lab.max()) + 1 < classes + 1, f"{what}: labels up to {int(lab.max())} for {classes} classes")
            t.check(cfg.latent_projector.autoencoder.bottleneck_op.child.child.codebook_size + 1 == classes, f"{what}: {classes} classes for a codebook of {cfg.latent_projector.autoencoder.bottleneck_op.child.child.codebook_size} and one class of generated images")
            for name in ("discriminator_loss", "generator_loss"):
                args = (logits, lab) if name == "generator_loss" else (logits, logits, lab)
                fn = H.instantiate(cfg.discriminator[name])
                ok, v = t.attempt(f"{what}: {name}", fn, *args)
                if not ok:
                    continue
                t.check(bool(torch.isfinite(torch.as_tensor(v)).all()), f"{what}: {name} is {v}")
            t.state(disc, lp)
            t.trace()


def run_tests(t, case):
    """Evaluation of the shipped configuration uses all images of the named data sets."""
    mod, fl = illm()
    import neuralcompression.data._kodak as kd
    d = conf("illm", "conf")
    g = H.groups(d)
    for name, n in itertools.product(g["test_dataloaders"], (1, 2)):
        with fsenv.scratch() as root:
            cfg = composed(t, f"test data {name}", d, "config", root, choice=dict(test_dataloaders=name))
            if cfg is None:
                continue
            dirs = {"kodak": "kodak", "clic": "clic/clic2020/test", "div2k": "div/DIV2K_valid_HR"}
            for k, p in dirs.items():
                os.makedirs(os.path.join(root, p))
                for i in range(24 if k == "kodak" else n):
                    a = np.full((2, 3, 3), 10 * i + len(k), dtype=np.uint8)
                    Image.fromarray(a).save(os.path.join(root, p, f"kodim{i + 1:02}.png" if k == "kodak" else f"{i:04}.png"))
            for v in cfg.test_dataloaders.values():
                key = [k for k in dirs if k in v.name]
                v.class_params.dataset.root = os.path.join(root, dirs[key[0]].split("/")[0] if key else "none")
                v.class_params.num_workers = 0
            old = kd.Kodak._check_integrity
            kd.Kodak._check_integrity = lambda *a, **k: None
            try:
                for v in cfg.test_dataloaders.values():
                    # each entry on its own; an entry that names what does not exist is reported and then
                    # replaced by what it means, so that the others are still checked
                    try:
                        H.instantiate(v.class_params)
                    except Exception as e:  # noqa: BLE001
                        ds = v.class_params.dataset
                        t.fail(f"test data {name}: {v.name} cannot be built: {type(e).__name__}: {e}", key=f"illm test_dataloaders={name} {v.name} {ds.get('_target_')} split={ds.get('split')}")
                        if ds.get("_target_", "").endswith(".DiV2KDataset"):
                            ds["_target_"] = "neuralcompression.data.DIV2KDataset"
                        if ds.get("split") == "test_fid":
                            ds["split"] = "test"
                ok, pair = t.attempt(f"test data {name}", mod.build_test_dataloaders, cfg)
            finally:
                kd.Kodak._check_integrity = old
            if ok:
                names, loaders = pair
                t.check(names == [v.name for v in cfg.test_dataloaders.values()] and len(loaders) == len(names), f"test data {name}: {names}")
                for nm, dl in zip(names, loaders):
                    k = [k for k in dirs if k in nm]
                    if not k:
                        continue
                    ok, got = t.attempt(f"test data {nm}", lambda: [x if isinstance(x, torch.Tensor) else x[0] for x in dl])
                    if ok:
                        want = [10 * i + len(k[0]) for i in range(24 if k[0] == "kodak" else n)]
                        vals = [round(float(x.mean()) * 255) for x in got]
                        t.check(sorted(vals) == want and all(x.shape == (1, 3, 2, 3) for x in got), f"test data {nm}: images {vals}, given {want}")
            t.state(name, n)
            t.trace()


# ------------------------------------------------------------------------- DVC

def dvc():
    mod, fl = load("deep_video_compression", "train")
    import dvc_module
    if not isinstance(dvc_module.models, Zoo):
        dvc_module.models = Zoo(dvc_module.models)
    return mod, fl


class Zoo(dict):
    """The model zoo without downloads."""
    made = {}

    def __getitem__(self, name):
        fn = dict.__getitem__(self, name)

        def make(quality, *a, pretrained=False, **k):
            key = (name, quality)
            if key not in self.made:
                torch.manual_seed(3)
                self.made[key] = fn(quality, *a, pretrained=False, **k)
            return self.made[key]
        return make


STAGES = ["s1_motion_estimation", "s2_motion_compression", "s3_motion_compensation", "s4_total_2frame", "s5_total"]


def run_dvc(t, case):
    mod, fl = dvc()
    d = conf("deep_video_compression", "config")
    g = H.groups(d)
    have = g["training_stages"]
    for n in range(case["n"], min(case["n"] + 6, 2 ** len(have))):
        sel = [s for i, s in enumerate(have) if n >> i & 1]
        for mode in [None] + g["mode"]:
            what = f"stages {sel}, launcher {mode}"
            with fsenv.scratch() as root:
                cfg = composed(t, what, d, "base", root, choice=dict(training_stages=sel), add=[("mode", mode)] if mode else [], over={"model.coder_channels": 8})
                if cfg is None:
                    continue

                class Data(mod_vimeo(mod)):
                    def setup(self, stage=None):
                        self.val_dataset = [torch.full((1,), float(i)) for i in range(12)]
                keep = mod.Vimeo90kSeptupletLightning
                mod.Vimeo90kSeptupletLightning = Data
                fl.Trainer.made.clear()
                try:
                    with quiet(root):
                        ok, _ = t.attempt(what, mod.main, cfg)
                finally:
                    mod.Vimeo90kSeptupletLightning = keep
                if not ok:
                    continue
                tr = [x for x in fl.Trainer.made if x.runs]
                got = []
                for x in tr:
                    m = x.runs[0][1][0] if x.runs[0][1] else x.runs[0][2]["model"]
                    got.append(m.training_stage)
                    t.check(1 <= m.num_pframes < 7, f"{what}: stage {m.training_stage} predicts {m.num_pframes} frames of clips of 7")
                    st = [s for s in sel if cfg.training_stages[s].module.training_stage == m.training_stage]
                    t.check(len(st) == 1 and x.kwargs["max_steps"] == cfg.training_stages[st[0]].trainer.max_steps, f"{what}: stage {m.training_stage} runs {x.kwargs.get('max_steps')} steps")
                    if len(st) == 1:
                        own = dict(cfg.module, **cfg.training_stages[st[0]].module)
                        for key in ("learning_rate", "aux_learning_rate", "num_pframes", "distortion_lambda"):
                            if hasattr(m, key):
                                t.check(getattr(m, key) == own[key], f"{what}: stage {m.training_stage} has {key} {getattr(m, key)}, configured {own[key]}")
                        if hasattr(m.model, "distortion_lambda"):
                            t.check(m.model.distortion_lambda == own["distortion_lambda"], f"{what}: stage {m.training_stage} has distortion weight {m.model.distortion_lambda}, configured {own['distortion_lambda']}")
                    ok, oc = t.attempt(f"{what}: optimisers of {m.training_stage}", m.configure_optimizers)
                t.check(got == sorted(got) and len(got) == len(sel) == len(set(got)), f"{what}: trains {got}")
                t.state(n, mode)
                t.trace()


def mod_vimeo(mod):
    import data_module
    return data_module.Vimeo90kSeptupletLightning


def run_dvcstep(t, case):
    """One training and validation step of every stage at full size."""
    mod, fl = dvc()
    d = conf("deep_video_compression", "config")
    have = H.groups(d)["training_stages"]
    if case["i"] >= len(have):
        return
    s = have[case["i"]]
    with fsenv.scratch() as root:
        cfg = composed(t, s, d, "base", root)
        if cfg is None:
            return
        torch.manual_seed(0)
        ok, net = t.attempt("network", mod.DVC, **cfg.model)
        ok, m = t.attempt(f"stage {s}", lambda: mod.DvcModule(net, **mod.merge_configs(cfg.module, cfg.training_stages[s].module)))
        if not ok:
            return
        ok, oc = t.attempt(f"stage {s}: optimisers", m.configure_optimizers)
        if not ok:
            return
        oc = oc if isinstance(oc, (list, tuple)) else [oc]
        opts = [o["optimizer"] if isinstance(o, dict) else o for o in oc]
        scheds = [o["lr_scheduler"] for o in oc if isinstance(o, dict) and "lr_scheduler" in o]
        m.optimizers = lambda *a, **k: opts if len(opts) > 1 else opts[0]
        m.lr_schedulers = lambda: (scheds[0] if scheds else None)
        t.check(opts[0].defaults["lr"] == cfg.training_stages[s].module.learning_rate, f"stage {s}: learning rate {opts[0].defaults['lr']}")
        b = torch.rand(1, m.num_pframes + 1, 3, 64, 64)
        m.train()
        m.logged.clear()
        ok, _ = t.attempt(f"stage {s}: training step", m.training_step, b.clone(), 0)
        bad = {k: v for k, v in m.logged.items() if isinstance(v, (int, float)) or (isinstance(v, torch.Tensor) and v.numel() == 1)}
        bad = [k for k, v in bad.items() if not math.isfinite(float(v))]
        t.check(not bad, f"stage {s}: training logs {bad} that are not finite")
        m.eval()
        m.logged.clear()
        with torch.no_grad():
            ok, _ = t.attempt(f"stage {s}: validation step", m.validation_step, b.clone(), 0)
        mon = cfg.checkpoint.model_checkpoint.monitor
        t.check(mon in m.logged and math.isfinite(float(m.logged[mon])), f"stage {s}: checkpoints are chosen by {mon}, validation logs {sorted(m.logged)}")
        t.state(s)
        t.trace()


# ----------------------------------------------------------- bits-back diffusion

def published(log):
    """improved_diffusion's functions the configurations name, with their published signatures."""
    def create_model(image_size, num_channels, num_res_blocks, learn_sigma, class_cond, use_checkpoint, attention_resolutions, num_heads, num_heads_upsample, use_scale_shift_norm, dropout):
        assert image_size in (32, 64, 256), f"unsupported image size: {image_size}"
        assert all(image_size % int(r) == 0 for r in attention_resolutions.split(","))
        log["model"] = dict(image_size=image_size, learn_sigma=learn_sigma, class_cond=class_cond)
        return nn.Linear(1, 1)

    def load_data(*, data_dir, batch_size, image_size, class_cond=False, deterministic=False):
        assert data_dir, "unspecified data directory"
        log.setdefault("data", []).append(dict(data_dir=data_dir, batch_size=batch_size, image_size=image_size, deterministic=deterministic))

        def gen():
            while True:
                yield torch.zeros(batch_size, 3, image_size, image_size), {}
        return gen()

    def create_named_schedule_sampler(name, diffusion):
        assert name in ("uniform", "loss-second-moment"), name
        return ("sampler", name, diffusion)

    class TrainLoop:
        def __init__(self, *, model, diffusion, data, batch_size, microbatch, lr, ema_rate, log_interval, save_interval, resume_checkpoint, use_fp16=False, fp16_scale_growth=1e-3, schedule_sampler=None, weight_decay=0.0, lr_anneal_steps=0):
            log["loop"] = dict(batch_size=batch_size, lr=lr, ema=[ema_rate] if isinstance(ema_rate, float) else [float(x) for x in ema_rate.split(",")], sampler=schedule_sampler, model=model, diffusion=diffusion, resume=resume_checkpoint, anneal=lr_anneal_steps, save=save_interval)

        def run_loop(self):
            log["ran"] = True
    return create_model, load_data, create_named_schedule_sampler, TrainLoop


def run_bbd(t, case):
    from . import c39
    H.install()
    m = c39.mods()
    f = m["f"]
    # the initial message is as long as asked for up to a few symbols: gigabytes otherwise
    sys.modules["craystack"].random_message = lambda n, shape, *a: f.random_message(min(n, f.np.prod(shape).item() + 64), shape)
    log = {}
    create_model, load_data, sampler, loop = published(log)

    def mod(name, **k):
        x = sys.modules.setdefault(name, types.ModuleType(name))
        x.__dict__.update(k)
        setattr(sys.modules["improved_diffusion"], name.split(".")[-1], x)
    mod("improved_diffusion.script_util", create_model=create_model)
    mod("improved_diffusion.image_datasets", load_data=load_data)
    mod("improved_diffusion.resample", create_named_schedule_sampler=sampler)
    util = m["util"]
    util.instantiate = H.instantiate
    sys.modules["hydra"].utils.instantiate = H.instantiate
    H.RESOLVERS["divide_by_n_proc"] = util.divide_by_n_proc
    util.TrainLoop.__bases__ = (loop,)
    import importlib
    sys.modules.pop(case["s"], None)
    script = importlib.import_module(case["s"])
    d = conf("bits_back_diffusion", "config")
    g = H.groups(d)
    w = case["w"]
    torch.distributed.get_world_size, torch.distributed.get_rank, torch.distributed.barrier = (lambda *a: w), (lambda *a: 0), (lambda *a: None)
    sys.modules["improved_diffusion.dist_util"].load_state_dict = lambda p, **k: (log.__setitem__("weights", p), nn.Linear(1, 1).state_dict())[1]
    torch.distributed.all_gather = lambda out, x: [o.copy_(x) for o in out]
    torch.distributed.all_reduce = lambda x: x.mul_(w)
    sizes = {"cifar": 32, "imagenet": 64}
    for data, diff, mode in itertools.product(g["data"], g["diffusion"], [None] + g["mode"]):
        log.clear()
        what = f"{case['s']}: data {data}, diffusion {diff}, {w} processes, launcher {mode}"
        with fsenv.scratch() as root:
            bad = 128 % w != 0
            if bad:
                # the batch cannot be divided: refused, never rounded
                raw = H.compose(d, case["s"], choice=dict(data=data, diffusion=diff))
                t.must_raise(what, ValueError, H.resolve, raw)
                t.state(data, diff, mode)
                continue
            cfg = composed(t, what, d, case["s"], root, choice=dict(data=data, diffusion=diff), add=[("mode", mode)] if mode else [])
            if cfg is None:
                continue
            size = sizes.get(data)
            steps = 100 if diff == "respaced" else 4000
            enc = []
            if case["s"] == "encode":
                script.encode = lambda codec, loader, n, iv: enc.append(("encode", codec, n, iv))
                script.decode = lambda codec, sd, iv: enc.append(("decode", codec, iv))
            if case["s"] == "compute_vlb":
                def bpd(self, model, x, clip_denoised=True, model_kwargs=None):
                    B = x.shape[0]
                    enc.append(("bpd", B))
                    k = dict(vb=torch.ones(B, self.num_timesteps), mse=torch.ones(B, self.num_timesteps), xstart_mse=torch.ones(B, self.num_timesteps), prior_bpd=torch.ones(B))
                    return dict(k, total_bpd=k["vb"].sum(1) + 1)
                f.GaussianDiffusion.calc_bpd_loop = bpd
            keep = np.geterr()
            with quiet(root):
                ok, _ = t.attempt(what, script.main, cfg)
            np.seterr(**keep)
            if not ok:
                continue
            train = case["s"] == "train"
            dat = log["data"][0]
            t.check(log["model"]["image_size"] == dat["image_size"] == (size or dat["image_size"]), f"{what}: network for images of {log['model']['image_size']}, data of {dat['image_size']}")
            t.check(log["model"]["learn_sigma"] == cfg.diffusion.learn_sigma and dat["deterministic"] != train, f"{what}: variance or order of the data")
            t.check(dat["batch_size"] * (w if train else 1) == (128 if train else dat["batch_size"]), f"{what}: {dat['batch_size']} images per process")
            split = ("train" if train else "valid") + f"_{size}x{size}" if size else None
            t.check(split is None or (Path(dat["data_dir"]).is_absolute() and Path(dat["data_dir"]).name == split), f"{what}: reads {dat['data_dir']}")
            if data == "cifar":
                rel = Path(dat["data_dir"]).relative_to(Path(root).resolve()) if str(dat["data_dir"]).startswith(str(Path(root).resolve())) else Path(dat["data_dir"])
                t.check(str(rel) == os.path.join("datasets", "cifar10", split), f"{what}: reads {rel}, the preparation script writes datasets/cifar10/{split}")
            if train:
                lp = log["loop"]
                t.check(log.get("ran") and lp["batch_size"] == dat["batch_size"] and lp["sampler"][2] is lp["diffusion"] and lp["diffusion"].num_timesteps == steps, f"{what}: training loop {lp}")
                t.check(all(0 < e < 1 for e in lp["ema"]) and lp["lr"] > 0 and not lp["resume"], f"{what}: training loop {lp}")
            elif case["s"] == "encode":
                t.check([e[0] for e in enc] == ["encode", "decode"], f"{what}: ran {[e[0] for e in enc]}")
                c = enc[0][1]
                t.check(tuple(c.data_shape) == (dat["batch_size"], 3, dat["image_size"], dat["image_size"]) and c.model.steps == steps, f"{what}: codec for {tuple(c.data_shape)} with {c.model.steps} steps")
                t.check(enc[0][2] == cfg.evaluator.num_samples and cfg.evaluator.num_samples % dat["batch_size"] == 0, f"{what}: {enc[0][2]} samples in batches of {dat['batch_size']}")
                x = np.linspace(-1, 1, 256)
                t.check(np.array_equal(np.ravel(c.quantize(x)), np.arange(256)), f"{what}: the 256 levels of an image become {np.unique(np.ravel(c.quantize(x))).size} symbols")
            else:
                tot = sum(e[1] for e in enc) * w
                t.check(cfg.evaluator.num_samples <= tot < cfg.evaluator.num_samples + dat["batch_size"] * w, f"{what}: evaluates {tot} samples of {cfg.evaluator.num_samples}")
            if not train:
                t.check(data in Path(log["weights"]).name, f"{what}: weights {log['weights']}")
            t.state(data, diff, mode)
            t.trace()


def run_case(t, case):
    torch.set_num_threads(1)
    H.MADE.clear()
    try:
        globals()["run_" + case["kind"]](t, case)
    finally:
        os.chdir(_cwd)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
