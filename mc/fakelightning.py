"""Minimal stand-ins for lightning, hydra and omegaconf (not installed here).

They only provide what a module sees of the training framework: a trainer with
a step counter, manual optimisation (optimizers, schedulers, backward,
gradient clipping) and logging, all recorded.  Metrics that need downloaded
networks are replaced by recorders.
"""
import importlib
import importlib.machinery
import os
import sys
import types

import torch
import torch.nn as nn



class Trainer:
    made = []  # every trainer built, newest last

    def __init__(self, *a, **k):
        self.args, self.kwargs, self.runs = a, k, []
        Trainer.made.append(self)
        del Trainer.made[:-50]
        self.global_rank = 0
        self.global_step = 0
        self.current_epoch = 0
        self.sanity_checking = False

    def fit(self, *a, **k):
        self.runs.append(("fit", a, k))

    def test(self, *a, **k):
        self.runs.append(("test", a, k))


class LightningModule(nn.Module):
    def __init__(self, *a, **k):
        super().__init__()
        self.__dict__["trainer"] = Trainer()
        self.__dict__["logged"] = {}
        self.__dict__["events"] = []
        self.__dict__["_opts"] = None
        self.__dict__["_scheds"] = None

    @property
    def device(self):
        return torch.device("cpu")

    @property
    def dtype(self):
        return torch.float32

    @property
    def global_step(self):
        return self.trainer.global_step

    @property
    def current_epoch(self):
        return self.trainer.current_epoch

    def optimizers(self, use_pl_optimizer=True):
        o = self._opts
        return o[0] if len(o) == 1 else o

    def lr_schedulers(self):
        s = self._scheds
        return s[0] if len(s) == 1 else s

    def manual_backward(self, loss, *a, **k):
        self.events.append(("backward", float(loss)))
        loss.backward(*a, **k)

    def clip_gradients(self, optimizer, gradient_clip_val=None, gradient_clip_algorithm=None):
        self.events.append(("clip", id(optimizer), gradient_clip_val, gradient_clip_algorithm))
        params = [p for g in optimizer.param_groups for p in g["params"] if p.grad is not None]
        if gradient_clip_algorithm == "value":
            nn.utils.clip_grad_value_(params, gradient_clip_val)
        else:
            nn.utils.clip_grad_norm_(params, gradient_clip_val)

    def log(self, name, value, *a, **k):
        self.logged[name] = value

    def log_dict(self, d, *a, **k):
        for n, v in d.items():
            self.log(n, v, *a, **k)

    def print(self, *a, **k):
        pass

    def on_load_checkpoint(self, checkpoint):
        pass

    def on_train_epoch_start(self):
        pass

    def on_validation_epoch_start(self):
        pass

    def on_test_epoch_start(self):
        pass


class Recorder(nn.Module):
    """A metric that remembers what it was given."""

    def __init__(self, *a, **k):
        super().__init__()
        self.calls = []
        self.resets = 0
        self.args = (a, k)

    def forward(self, *a, **k):
        self.calls.append((a, k))
        return torch.tensor(float(len(self.calls)))

    def update(self, *a, **k):
        self.calls.append((a, k))

    def compute(self):
        return torch.tensor(float(len(self.calls)))

    def reset(self):
        self.calls = []
        self.resets += 1


class DictConfig(dict):
    def __getattr__(self, name):
        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)

    def copy(self):
        return DictConfig(self)


def instantiate(cfg, *a, **k):
    """A configuration entry is a callable here."""
    return cfg(*a, **k)


class LightningDataModule:
    def __init__(self, *a, **k):
        self.trainer = None
        self.prepare_data_per_node = True


class Image:
    """Stand-in for wandb.Image."""

    def __init__(self, data, caption=None, **k):
        self.data, self.caption = data.detach().clone(), caption


def _main(*a, **k):
    return lambda f: f


class Callback:
    def __init__(self, *a, **k):
        self.args = (a, k)


def install():
    if "lightning" in sys.modules:
        return
    light, pt = types.ModuleType("lightning"), types.ModuleType("lightning.pytorch")
    pt.LightningModule = LightningModule
    pt.Callback = Callback
    pt.Trainer = Trainer
    pt.LightningDataModule = LightningDataModule
    pt.seed_everything = lambda *a, **k: None
    light.pytorch = pt
    light.LightningModule = LightningModule
    light.LightningDataModule = LightningDataModule
    pytl = types.ModuleType("pytorch_lightning")
    pytl.__dict__.update({k: v for k, v in pt.__dict__.items() if not k.startswith("__")})
    hyd, hu = types.ModuleType("hydra"), types.ModuleType("hydra.utils")
    hu.instantiate = instantiate
    hyd.main = _main
    wb = types.ModuleType("wandb")
    wb.Image = Image
    for base, mod in (("lightning.pytorch", pt), ("pytorch_lightning", pytl)):
        for sub, names in (("callbacks", ("LearningRateMonitor", "ModelCheckpoint", "Callback")), ("loggers", ("WandbLogger",)), ("strategies", ("DDPStrategy",))):
            m = types.ModuleType(base + "." + sub)
            for n in names:
                m.__dict__[n] = type(n, (Callback,), {})
            setattr(mod, sub, m)
            if sub == "loggers":
                m.wandb = types.ModuleType(base + ".loggers.wandb")
                m.wandb.WandbLogger = m.WandbLogger
                sys.modules[base + ".loggers.wandb"] = m.wandb
            sys.modules[base + "." + sub] = m
    sys.modules["wandb"] = wb
    hyd.utils = hu
    om = types.ModuleType("omegaconf")
    om.DictConfig = DictConfig
    om.OmegaConf = type("OmegaConf", (), {"to_container": staticmethod(lambda c, **k: c), "register_new_resolver": staticmethod(lambda *a, **k: None), "set_struct": staticmethod(lambda *a, **k: None)})
    mods = {"lightning": light, "lightning.pytorch": pt, "pytorch_lightning": pytl, "hydra": hyd, "hydra.utils": hu, "omegaconf": om}
    sys.modules.update(mods)
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] in ("lightning", "pytorch_lightning", "hydra", "omegaconf", "wandb") and isinstance(m, types.ModuleType) and m.__spec__ is None:
            m.__spec__ = importlib.machinery.ModuleSpec(n, None)


def illm(name):
    """Import a module of projects/illm on the stand-ins."""
    from . import core
    install()
    import torchmetrics.image as tmi
    for n in ("FrechetInceptionDistance", "LearnedPerceptualImagePatchSimilarity"):
        tmi.__dict__[n] = Recorder
    d = os.path.join(core.REPO, "projects", "illm")
    if d not in sys.path:
        sys.path.insert(0, d)
    return importlib.import_module(name)


def project(path, name):
    """Import a module of projects/<path> on the stand-ins; one project per process."""
    from . import core
    install()
    import torchmetrics
    if not hasattr(torchmetrics, "PSNR"):
        torchmetrics.PSNR = torchmetrics.PeakSignalNoiseRatio
    d = os.path.join(core.REPO, "projects", path)
    if d not in sys.path:
        sys.path.insert(0, d)
    return importlib.import_module(name)
