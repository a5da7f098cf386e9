N = "neuralcompression/"
DVC = "projects/deep_video_compression/"
ILLM = "projects/illm/"
VCT = "projects/torch_vct/"
FL = ["mc/fakelightning.py"]


def head(project):
    return f'''
import os, sys, torch
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "{project}"))
import fakelightning
fakelightning.install()
import torchmetrics
if not hasattr(torchmetrics, "PSNR"):
    torchmetrics.PSNR = torchmetrics.PeakSignalNoiseRatio
import torchmetrics.image as tmi
for n in ("FrechetInceptionDistance", "LearnedPerceptualImagePatchSimilarity"):
    tmi.__dict__[n] = fakelightning.Recorder
'''


SEEDS = [
 dict(id="c34_accumulated_pframe_grads", property="C34",
  edits=[(DVC+"dvc_module.py", '''        image1 = batch[:, 0]
        for i in range(self.num_pframes):
            opt1.zero_grad()  # we backprop for every P-frame
            image2 = batch[:, i + 1]
''', '''        opt1.zero_grad()
        image1 = batch[:, 0]
        for i in range(self.num_pframes):
            image2 = batch[:, i + 1]
''')],
  needs="training with at least two P-frames per clip",
  breaks="gradients of earlier P-frames are applied again with every later one",
  files=FL,
  demo=head("deep_video_compression") + '''
import dvc_module
from _utils import LossValues, OutputTensors
w = torch.nn.Parameter(torch.zeros(1))
opt = torch.optim.SGD([w], lr=1.0)
class M:
    def compute_batch_loss(self, a, b):
        return LossValues((w * b.mean()).sum(), None, None), OutputTensors(None, a, b, b)
    def quantile_loss(self):
        return torch.tensor(0.0)
S = dvc_module.DvcModule.__new__(dvc_module.DvcModule)
torch.nn.Module.__init__(S)
S.__dict__.update(model=M(), num_pframes=2, grad_clip_value=1e6, training_stage="1", trainer=None, logged={}, events=[], _opts=[opt], _scheds=[None])
S.__dict__["optimizers"] = lambda *a, **k: opt
S.__dict__["lr_schedulers"] = lambda: None
S.__dict__["compress_iframe"] = lambda b: (b, 0.0)
S.__dict__["psnr"] = lambda *a: 0
S.training_step(torch.ones(1, 3, 3, 4, 4), 0)
assert abs(float(w) + 2.0) < 1e-5, float(w)
'''),
 dict(id="c34_update_short_circuit", property="C34",
  edits=[(DVC+"_utils.py", '''        update1 = self.model.motion_entropy_bottleneck.update(force=force)
        update2 = self.model.residual_entropy_bottleneck.update(force=force)
        return update1 or update2
''', '''        return self.model.motion_entropy_bottleneck.update(
            force=force
        ) or self.model.residual_entropy_bottleneck.update(force=force)
''')],
  needs="the joint stages (4 and 5), with the motion tables actually rebuilt",
  breaks="the residual coding tables are not rebuilt when the motion tables were",
  files=FL,
  demo=head("deep_video_compression") + '''
import _utils
calls = []
class B:
    def __init__(self, n): self.n = n
    def update(self, force=False):
        calls.append(self.n)
        return True
class D(torch.nn.Module):
    pass
d = D()
d.motion_entropy_bottleneck, d.residual_entropy_bottleneck = B("m"), B("r")
_utils.DvcStage4and5(d, 1, _utils.LossFunctions(None, lambda *a: 0)).update(force=True)
assert sorted(calls) == ["m", "r"], calls
'''),
 dict(id="c34_val_predicts_from_original", property="C34",
  edits=[(DVC+"dvc_module.py", '''            loss_values, images = self.model.compute_batch_loss(image1, image2)
            image1 = images.image2_est  # images are detached

            # keep track of these for other distortion metrics
            image2_list.append(images.image2)
            image2_est_list.append(images.image2_est)
''', '''            loss_values, images = self.model.compute_batch_loss(image1, image2)
            image1 = images.image2

            # keep track of these for other distortion metrics
            image2_list.append(images.image2)
            image2_est_list.append(images.image2_est)
''')],
  needs="validation with at least two P-frames per clip",
  breaks="later P-frames are predicted from the original frame, so the reported loss is too good",
  files=FL,
  demo=head("deep_video_compression") + '''
import dvc_module
from _utils import LossValues, OutputTensors
seen = []
class M:
    def compute_batch_loss(self, a, b):
        seen.append((float(a.mean()), float(b.mean())))
        z = torch.tensor(0.0)
        return LossValues(z, z, None), OutputTensors(None, a, b, b + 10)
S = dvc_module.DvcModule.__new__(dvc_module.DvcModule)
torch.nn.Module.__init__(S)
S.__dict__.update(model=M(), num_pframes=2, training_stage="1", logged={}, events=[])
S.__dict__["compress_iframe"] = lambda b: (b, 0.0)
S.__dict__["psnr"] = lambda *a: 0
S.validation_step(torch.arange(3.0).reshape(1, 3, 1, 1, 1).expand(1, 3, 3, 2, 2).clone(), 0)
assert seen == [(0.0, 1.0), (11.0, 2.0)], seen
'''),
 dict(id="c35_rate_per_clip_of_batch", property="C35",
  edits=[(VCT+"model_lightning.py", '''        num_pixels = B * H * W if per_frame else B * H * W * T
''', '''        num_pixels = H * W if per_frame else H * W * T
''')],
  needs="a batch of more than one clip",
  breaks="the rate is summed over the batch instead of averaged, so the rate-distortion trade-off depends on the batch size",
  files=FL,
  demo=head("torch_vct") + '''
import model_lightning as ml
from datamodules.video_data_api import VideoDataset
class S:
    class model:
        compute_rate = staticmethod(lambda *a, per_frame: torch.tensor([64.0, 32.0]))
r = ml.VCTModule.rate_loss(S(), VideoDataset(torch.zeros(2, 2, 3, 4, 4)), ())
assert r.tolist() == [2.0, 1.0], r
'''),
 dict(id="c36_val_drop_last", property="C36",
  edits=[(VCT+"datamodules/vimeo.py", '''            shuffle=False,
            pin_memory=self.pin_memory,
            collate_fn=self._custom_collate,
''', '''            shuffle=False,
            pin_memory=self.pin_memory,
            drop_last=len(self.val_dataset) > self.val_batch_size,
            collate_fn=self._custom_collate,
''')],
  needs="a validation set larger than, and not a multiple of, the batch size",
  breaks="the last partial batch of the validation set is never evaluated",
  files=FL,
  demo=head("torch_vct") + '''
from datamodules.vimeo import VimeoDataModule
import inspect
d = VimeoDataModule.__new__(VimeoDataModule)
d.__dict__.update(val_dataset=[torch.zeros(2, 3, 4, 4) for _ in range(3)], val_batch_size=2, num_workers=0, pin_memory=False)
assert sum(b.video_tensor.shape[0] for b in d.val_dataloader()) == 3
'''),
 dict(id="c37_cache_key_without_val", property="C37",
  edits=[(ILLM+"train.py", '''    sha.update(str(cfg.image_logs.train_log_indices).encode())
    sha.update(str(cfg.image_logs.val_log_indices).encode())
''', '''    indices = (*cfg.image_logs.train_log_indices, *cfg.image_logs.val_log_indices)
    sha.update(str(indices).encode())
''')],
  needs="two configurations that divide the same index list differently between training and validation",
  breaks="the second configuration gets the first one's cached images",
  files=FL,
  demo=head("illm") + '''
import shutil, tempfile, atexit
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)
import train
DC = fakelightning.DictConfig
class Data:
    setup = lambda s, *a: None
    train_dataset = [torch.full((1,), float(i)) for i in range(4)]
    eval_dataset = [torch.full((1,), 100.0 + i) for i in range(4)]
def build(a, b):
    cfg = DC(data=DC(_target_="x"), image_logs=DC(log_cache_dir=D, train_log_indices=a, val_log_indices=b))
    c = train.build_wandb_image_logger(cfg, Data())
    return [v.flatten().tolist() for v in (c.train_batch, c.eval_batch)]
build([0, 1], [2])
assert build([0], [1, 2]) == [[0.0], [101.0, 102.0]]
'''),
 dict(id="c37_stage_settings_leak", property="C37",
  edits=[(DVC+"train.py", '''    new_cfg = cfg1.copy()
    OmegaConf.set_struct(new_cfg, False)
    new_cfg.update(cfg2)

    return new_cfg
''', '''    OmegaConf.set_struct(cfg1, False)
    cfg1.update(cfg2)

    return cfg1
''')],
  needs="a stage that overrides a setting which a later stage leaves at its default",
  breaks="settings of one training stage carry over to the following stages",
  files=FL,
  demo=head("deep_video_compression") + '''
import train
DC = fakelightning.DictConfig
base = DC(lr=1, n=1)
assert dict(train.merge_configs(base, DC(lr=5))) == {"lr": 5, "n": 1}
assert dict(train.merge_configs(base, DC(n=2))) == {"lr": 1, "n": 2}
'''),
 dict(id="c37_resume_any_checkpoint", property="C37",
  edits=[(ILLM+"train.py", '''    last_checkpoint: Optional[Path] = None
    if (checkpoint_dir / "last.ckpt").exists() and cfg.checkpoint.overwrite is False:
        last_checkpoint = checkpoint_dir / "last.ckpt"
''', '''    last_checkpoint: Optional[Path] = None
    if cfg.checkpoint.overwrite is False:
        checkpoints = sorted(checkpoint_dir.glob("last*.ckpt"))
        last_checkpoint = checkpoints[-1] if checkpoints else None
''')],
  needs="a directory that holds another checkpoint whose name starts with last (a kept earlier version)",
  breaks="training resumes from a superseded checkpoint",
  files=FL,
  demo=head("illm") + '''
import shutil, tempfile, atexit
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)
import train
DC = fakelightning.DictConfig
for n in ("last-v1.ckpt", "last.ckpt", "lastgood.ckpt"):
    open(os.path.join(D, n), "w").close()
cfg = DC(checkpoint=DC(overwrite=False, resume_training=True, callback=DC(dirpath=D)))
assert os.path.basename(train.fetch_checkpoint(cfg)) == "last.ckpt", train.fetch_checkpoint(cfg)
'''),
 dict(id="c38_partial_weights", property="C38",
  edits=[(N+"zoo/_noganms.py", '''        model.load_state_dict(
            torch.hub.load_state_dict_from_url(url, map_location="cpu")
        )
''', '''        model.load_state_dict(
            torch.hub.load_state_dict_from_url(url, map_location="cpu"),
            strict=False,
        )
''')],
  needs="a checkpoint with a missing or renamed entry",
  breaks="a damaged checkpoint is loaded partly and the model is silently left with random weights",
  demo='''
import torch
import neuralcompression.zoo as zoo
torch.hub.load_state_dict_from_url = lambda *a, **k: {"unknown": torch.zeros(1)}
try:
    zoo.noganms_quality_1(pretrained=True)
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id="c38_prefix_replaced_everywhere", property="C38",
  edits=[(ILLM+"train.py", '''        k[len(prefix) :]: v for k, v in state_dict.items() if k[: len(prefix)] == prefix
''', '''        k.replace(prefix, ""): v for k, v in state_dict.items() if prefix in k
''')],
  needs="a key that contains the prefix more than once or not at its start",
  breaks="entries of other parts are taken, and nested names are damaged",
  files=FL,
  demo=head("illm") + '''
import shutil, tempfile, atexit
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)
import train
f = os.path.join(D, "a.ckpt")
torch.save({"state_dict": {"model.a": torch.zeros(1), "model.model.b": torch.ones(1), "disc.model.c": torch.ones(1)}}, f)
assert sorted(train.pretrained_state_dict(f)) == ["a", "model.b"]
'''),
]
