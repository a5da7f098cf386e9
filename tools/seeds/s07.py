ILLM = "projects/illm/"
FL = ["mc/fakelightning.py"]


def head(project):
    return f'''
import os, sys, torch
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "{project}"))
import fakelightning
fakelightning.install()
import torchmetrics
if not hasattr(torchmetrics, "PSNR"):
    torchmetrics.PSNR = torchmetrics.PeakSignalNoiseRatio
import torchmetrics.image as tmi
for n in ("FrechetInceptionDistance", "LearnedPerceptualImagePatchSimilarity"):
    tmi.__dict__[n] = fakelightning.Recorder
'''



EVAL = '''
import contextlib, io, os, re, sys, tempfile, types
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "illm"))
import numpy as np, pickle, torch
from PIL import Image
import torchmetrics.image as tmi
class Rec(torch.nn.Module):
    def __init__(self, *a, **k): super().__init__()
    def update(self, *a, **k): pass
    def forward(self, *a, **k): pass
    def compute(self): return torch.tensor(0.0)
tmi.__dict__["FrechetInceptionDistance"] = tmi.__dict__["LearnedPerceptualImagePatchSimilarity"] = Rec
import eval_folder_example as E
LOG = []
class Net(torch.nn.Module):
    gain = 1.0
    def update(self): pass
    def update_tensor_devices(self, m): pass
    def compress(self, x, force_cpu=True):
        c = {"x": (x[..., ::4, ::4] * 15).round().to(torch.uint8).numpy().tobytes(), "s": tuple(x.shape[2:])}
        LOG.append((x, c))
        return c
    def decompress(self, c, force_cpu=True):
        h, w = c["s"]
        q = torch.frombuffer(bytearray(c["x"]), dtype=torch.uint8).reshape(1, 3, -(-h // 4), -(-w // 4)).float() / 15
        return q.repeat_interleave(4, 2).repeat_interleave(4, 3)[..., :h, :w] * self.gain
net = Net()
class T:
    hub = types.SimpleNamespace(load=lambda *a, **k: net)
    device = staticmethod(lambda *a: torch.device("cpu"))
    def __getattr__(self, n): return getattr(torch, n)
E.torch = T()
def run(sizes):
    with tempfile.TemporaryDirectory() as d:
        for i, (h, w) in enumerate(sizes):
            y, x = np.mgrid[0:h, 0:w]
            Image.fromarray(np.stack([(x + 40 * i) % 256, y % 256, (x + y) // 3 % 256], -1).astype(np.uint8)).save(os.path.join(d, f"{i}.png"))
        sys.argv = ["x", d]
        out = io.StringIO()
        LOG.clear()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            E.main()
    return {k: float(v) for k, v in re.findall(r"^([A-Za-z-]+): (\\S+)$", out.getvalue(), re.M)}
'''

SEEDS = [
 dict(id="c41_steps_by_configured_optimizers", property="C41",
  edits=[(ILLM+"train.py", '''    num_opts = len(module.configure_optimizers()[0])
''', '''    num_opts = sum(not key.endswith("_schedule") for key in cfg.optimizer)
''')],
  needs="a configuration whose optimiser file describes an optimiser the module does not use (frozen bottleneck, or the GAN optimiser file without a discriminator)",
  breaks="training runs one and a half times the configured number of steps",
  files=FL,
  demo=head("illm") + '''
import shutil, tempfile, atexit
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)
import train
os.chdir(D)
DC = fakelightning.DictConfig
opt = DC(model_opt=DC(), model_opt_schedule=DC(), discriminator_opt=DC(), discriminator_opt_schedule=DC(), aux_opt=DC(), aux_opt_schedule=DC())
class Data:
    setup = lambda s, *a: None
    train_dataset = eval_dataset = [torch.zeros(1)]
class Mod:
    def __init__(self, n): self.n = n
    def configure_optimizers(self): return [1] * self.n, [None] * self.n
cfg = DC(logger=DC(group="g"), training_mode="train", trainer=DC(max_steps=10), optimizer=opt, checkpoint=DC(callback=DC(dirpath=D)),
         data=DC(_target_="x"), image_logs=DC(log_cache_dir=D, train_log_indices=[0], val_log_indices=[0]))
for n in (3, 2, 1):
    assert train.build_trainer(cfg, Data(), Mod(n)).kwargs["max_steps"] == 10 * n, n
'''),
 dict(id="c41_stage_names_tidied", property="C41",
  edits=[("projects/deep_video_compression/dvc_module.py", '''    "4_total_2frame": DvcStage4and5,
    "5_total": DvcStage4and5,
''', '''    "4_total": DvcStage4and5,
    "5_total": DvcStage4and5,
''')],
  needs="training with the fourth stage of the shipped configuration",
  breaks="the name the shipped stage file gives is no longer known, and training stops after the third stage",
  files=FL,
  demo=head("deep_video_compression") + '''
import yaml, dvc_module
for i, f in enumerate(sorted(os.listdir("projects/deep_video_compression/config/training_stages"))):
    c = yaml.safe_load(open("projects/deep_video_compression/config/training_stages/" + f))
    for v in c.values():
        assert v["module"]["training_stage"] in dvc_module.TRAINING_STAGES, v["module"]
'''),
 dict(id="c42_rate_of_whole_folder", property="C42",
  edits=[(ILLM+"eval_folder_example.py", '''        bpp = num_bytes * 8 / (image.shape[0] * image.shape[-2] * image.shape[-1])
        bpp_vals.append(float(bpp))
''', '''        num_pixels = image.shape[0] * image.shape[-2] * image.shape[-1]
        bpp_vals.append((num_bytes * 8, num_pixels))
'''), (ILLM+"eval_folder_example.py", '''    bpp_total = sum(bpp_vals) / len(bpp_vals)
''', '''    bpp_total = sum(b for b, _ in bpp_vals) / sum(n for _, n in bpp_vals)
''')],
  needs="a folder with images of different sizes",
  breaks="the rate is weighted by image size instead of being the mean over images, unlike the other figures",
  files=[],
  demo=EVAL + '''
r = run([(256, 256), (512, 384)])
want = np.mean([len(pickle.dumps(c)) * 8 / (x.shape[2] * x.shape[3]) for x, c in LOG])
assert abs(r["Rate"] - want) < 1e-6, (r, want)
'''),
 dict(id="c42_wrapping_reconstruction", property="C42",
  edits=[(ILLM+"eval_folder_example.py", '''            decompressed = model.decompress(compressed, force_cpu=False).clamp(0.0, 1.0)
''', '''            decompressed = model.decompress(compressed, force_cpu=False)
'''), (ILLM+"eval_folder_example.py", '''            update_patch_fid(image, decompressed, fid_metric)

            orig_image = rescale_image(image)
            pred_image = rescale_image(decompressed)
''', '''            orig_image = rescale_image(image)
            pred_image = rescale_image(decompressed)

            decompressed = decompressed.clamp(0.0, 1.0)
            update_patch_fid(image, decompressed, fid_metric)
''')],
  needs="a reconstruction that leaves [0, 1] anywhere",
  breaks="PSNR and MS-SSIM compare wrapped 8-bit values",
  files=[],
  demo=EVAL + '''
net.gain = 1.3
r = run([(256, 256)])
x, c = LOG[0]
a, b = (x * 255 + 0.5).floor().double(), (net.decompress(c).clamp(0, 1) * 255 + 0.5).floor().double()
want = 10 * np.log10(255 ** 2 / ((a - b) ** 2).mean().item())
assert abs(r["PSNR"] - want) < 1e-3, (r, want)
'''),
]
