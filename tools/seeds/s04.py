N = "neuralcompression/"
ILLM = "projects/illm/"
PNG = '''
import os, shutil, sys, tempfile
from pathlib import Path
from PIL import Image
D = Path(tempfile.mkdtemp())
import atexit
atexit.register(shutil.rmtree, D, True)
def img(p, v):
    Path(p).parent.mkdir(parents=True, exist_ok=True)
    Image.new("RGB", (4, 4), (v, 0, 0)).save(p)
def val(im):
    return im.getpixel((0, 0))[0]
'''
SEEDS = [
 dict(id="c21_openimages_dotted_name", property="C21",
  edits=[(N+"data/_openimages_v6.py", '''    image_names = [os.path.splitext(el.rstrip())[0] for el in indices]
''', '''    image_names = [os.path.basename(el.rstrip()).split(".")[0] for el in indices]
''')],
  needs="an image name containing a dot before the extension",
  breaks="the file name is cut at its first dot, so another (or no) file is opened",
  demo=PNG + '''
from neuralcompression.data import OpenImagesV6
Image.new("RGB", (4, 4), (0, 0, 0)).save
for n, v in (("a.b", 10), ("a", 200)):
    (D / "test").mkdir(exist_ok=True)
    Image.new("RGB", (8, 8), (v, v, v)).save(D / "test" / (n + ".jpg"))
(D / "list-test-files.txt").write_text("a.b.jpg\\na.jpg\\n")
ds = OpenImagesV6(D, "test")
assert sorted(round(val(ds[i]) / 10) for i in range(2)) == [1, 20]
'''),
 dict(id="c21_openimages_exclusion_other_splits", property="C21",
  edits=[(N+"data/_openimages_v6.py", '''    if split == "train":
        image_names = [el for el in image_names if el not in _INVALID_IMAGE_NAMES]
''', '''    if split != "test":
        image_names = [el for el in image_names if el not in _INVALID_IMAGE_NAMES]
''')],
  needs="a validation image that carries the name of an unusable training image",
  breaks="a valid image of the validation split is silently dropped",
  demo=PNG + '''
from neuralcompression.data import OpenImagesV6
n = "0a866d6fd1ea9317"
(D / "validation").mkdir()
Image.new("RGB", (8, 8), (9, 9, 9)).save(D / "validation" / (n + ".jpg"))
(D / "list-validation-files.txt").write_text(n + ".jpg\\n")
assert len(OpenImagesV6(D, "val")) == 1
'''),
 dict(id="c21_vimeo_image_stride", property="C21",
  edits=[(N+"data/_vimeo_90k_septuplet.py", '''            folder_idx = idx // self.frames_per_group
            frame_idx = idx % self.frames_per_group + 1
''', '''            frame_idx, folder_idx = divmod(idx, len(self.folder_list))
            frame_idx = min(frame_idx + 1, 7)
''')],
  needs="a negative index into the image-mode data set",
  breaks="image mode is ordered frame-first, so an index no longer belongs to the documented septuplet",
  demo=PNG + '''
from neuralcompression.data import Vimeo90kSeptuplet
for a in range(2):
    for f in range(1, 8):
        img(D / f"s{a}" / f"im{f}.png", a * 100 + f)
ds = Vimeo90kSeptuplet(D, frames_per_group=3, folder_list=["s0", "s1"])
assert [val(ds[i]) for i in range(6)] == [1, 2, 3, 101, 102, 103]
'''),
 dict(id="c21_div2k_caseless_sort", property="C21",
  edits=[(N+"data/_div2k_dataset.py", '''        self.paths = sorted([*self.root.joinpath(self.split).glob("*.png")])
''', '''        self.paths = sorted(
            self.root.joinpath(self.split).glob("*.png"),
            key=lambda path: path.stem.lower(),
        )
''')],
  needs="two file names that differ only in case and a directory listing that does not come in name order",
  breaks="the order of such files depends on the directory listing",
  demo=PNG + '''
from neuralcompression.data import DIV2KDataset
for i, n in enumerate(["a", "A", "b"]):
    img(D / "DIV2K_valid_HR" / (n + ".png"), i)
real = Path.glob
a = []
for rev in (False, True):
    Path.glob = lambda self, pat: sorted(real(self, pat), reverse=rev)
    a.append([p.name for p in DIV2KDataset(D).paths])
assert a[0] == a[1], a
'''),
 dict(id="c22_kodak_skip_existing", property="C22",
  edits=[(N+"data/_kodak.py", '''            with urllib.request.urlopen(url) as response, open(
                local_file, "wb"
            ) as out_file:
                shutil.copyfileobj(response, out_file)
''', '''            if local_file.exists() and local_file.stat().st_size > 0:
                continue
            with urllib.request.urlopen(url) as response, open(
                local_file, "wb"
            ) as out_file:
                shutil.copyfileobj(response, out_file)
''')],
  needs="a truncated file left by an interrupted download, then a forced download",
  breaks="the forced download keeps the truncated file and never succeeds",
  demo=PNG + '''
import io, urllib.request
from neuralcompression.data import Kodak
class R(io.BytesIO):
    pass
def ok(url, *a, **k):
    return R(url.rsplit("/", 1)[-1].encode() * 10)
urllib.request.urlopen = ok
r = D / "k"
Kodak(r, check_hash=False, download=True)
want = (r / "kodim05.png").read_bytes()
(r / "kodim05.png").write_bytes(want[:7])
Kodak(r, check_hash=False, download=True, force_download=True)
assert (r / "kodim05.png").read_bytes() == want
'''),
 dict(id="c22_kodak_hash_partial", property="C22",
  edits=[(N+"data/_kodak.py", '''        for img_name in self.im_list:
            with open(img_name, "rb") as f:
                data = f.read()
                sha1.update(data)
''', '''        for img_name in filter(Path.exists, self.im_list):
            with open(img_name, "rb") as f:
                while True:
                    data = f.read(65536)
                    sha1.update(data)
                    if len(data) < 65536:
                        break
'''), (N+"data/_kodak.py", '''        if sha1.hexdigest() != sha_hash:
''', '''        if sha1.hexdigest() != sha_hash and all(map(Path.exists, self.im_list)):
''')],
  needs="a directory with one image missing",
  breaks="an incomplete data set passes the integrity check",
  demo=PNG + '''
from neuralcompression.data import Kodak
for i in range(1, 24):
    img(D / f"kodim{i:02}.png", i)
try:
    Kodak(D)
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id="c23_clic_val_skip_existing", property="C23",
  edits=[(N+"data/_clic_2020_image.py", '''        if self.split in {"train", "val"}:
            shutil.rmtree(self.root.joinpath("__MACOSX"))
''', '''        if self.split in {"train", "val"}:
            for extra in self.root.glob("*"):
                if extra.is_dir() and extra.name != self.split:
                    shutil.rmtree(extra)
''')],
  needs="two splits downloaded into the same root",
  breaks="downloading one split removes the images of another one",
  demo=PNG + '''
import torchvision.datasets.utils as tu
from neuralcompression.data import CLIC2020Image
def fake(url, download_root, extract_root=None, filename=None, md5=None, **k):
    r = Path(extract_root)
    img((r / "train" if "train" in url else r / "valid" if "valid" in url else r) / "x.png", 3)
    (r / "__MACOSX").mkdir(parents=True, exist_ok=True)
tu.download_and_extract_archive = fake
for s in ("test", "train", "val"):
    CLIC2020Image(D, s, download=True)
for s in ("test", "train", "val"):
    assert len(CLIC2020Image(D, s)) == 1, s
'''),
 dict(id="c23_clic_recursive_glob", property="C23",
  edits=[(N+"data/_clic_2020_image.py", '''        self.paths = sorted([*self.root.joinpath(self.split).glob("*.png")])
''', '''        self.paths = sorted([*self.root.joinpath(self.split).rglob("*.png")])
''')],
  needs="a __MACOSX directory with resource forks left in the test split by an interrupted download",
  breaks="resource-fork files of an interrupted extraction show up as images",
  demo=PNG + '''
from neuralcompression.data import CLIC2020Image
img(D / "clic2020" / "test" / "a.png", 3)
p = D / "clic2020" / "test" / "__MACOSX" / "._a.png"
p.parent.mkdir()
p.write_bytes(b"x")
assert len(CLIC2020Image(D, "test")) == 1
'''),
 dict(id="c24_video_index_stale", property="C24",
  edits=[(N+"data/_clic_2020_video.py", '''            self._current_video = None

            self._next_clip_start_sec = 0.0
        else:
''', '''            self._current_video = None
        else:
''')],
  needs="a second video after one that had more than one clip",
  breaks="the next video starts where the previous one ended and loses its first clips",
  demo=PNG + '''
from fractions import Fraction
from torch.utils.data import SequentialSampler
from pytorchvideo.data.clip_sampling import UniformClipSampler
from neuralcompression.data import CLIC2020Video
for v in range(2):
    for f in range(60):
        img(D / f"v{v}" / f"f{f:05d}_y.png", f)
ds = CLIC2020Video(D, UniformClipSampler(1), video_sampler=SequentialSampler)
it = iter(ds)
got = [next(it)["video_name"] for _ in range(4)]
assert got == ["v0", "v0", "v1", "v1"], got
'''),
 dict(id="c24_frame_filter_rounding", property="C24",
  edits=[(N+"data/_clic_2020_video.py", '''        indicies = torch.clamp(
            torch.linspace(0, n - 1, frames_per_clip), 0, n - 1
        ).long()
''', '''        step = max(n // frames_per_clip, 1)
        indicies = torch.clamp(torch.arange(frames_per_clip) * step, 0, n - 1)
''')],
  needs="a clip whose number of frames is not a multiple of frames_per_clip",
  breaks="the sampled frames no longer span the clip",
  demo='''
from neuralcompression.data import CLIC2020Video
assert CLIC2020Video._sample_frames(list(range(5)), 3) == [0, 2, 4]
'''),
 dict(id="c25_shared_counter_table", property="C25",
  edits=[(N+"functional/_count_flops.py", '''    counters_to_add = copy(_SINGLE_FLOP_OP_COUNTERS)
''', '''    counters_to_add = _SINGLE_FLOP_OP_COUNTERS
''')],
  needs="a count with estimates or overrides, followed by one without",
  breaks="options of one count leak into the later ones",
  demo='''
import torch
from neuralcompression.functional import count_flops
class M(torch.nn.Module):
    def forward(self, x):
        return torch.exp(x)
x = (torch.ones(3),)
a = count_flops(M(), x)[0]
count_flops(M(), x, use_single_flop_estimates=True)
assert count_flops(M(), x)[0] == a == 0
'''),
 dict(id="c25_override_precedence", property="C25",
  edits=[(N+"functional/_count_flops.py", '''    if use_single_flop_estimates:
        counters_to_add.update(_SINGLE_FLOP_ESTIMATE_COUNTERS)
    if counter_overrides is not None:
        counters_to_add.update(counter_overrides)
''', '''    if counter_overrides is not None:
        counters_to_add.update(counter_overrides)
    if use_single_flop_estimates:
        counters_to_add.update(_SINGLE_FLOP_ESTIMATE_COUNTERS)
''')],
  needs="an override for an operator that also has an estimate, with estimates switched on",
  breaks="the user's counter is replaced by the estimate",
  demo='''
import torch
from neuralcompression.functional import count_flops
class M(torch.nn.Module):
    def forward(self, x):
        return torch.exp(x)
assert count_flops(M(), (torch.ones(3),), {"aten::exp": lambda i, o: 77}, True)[0] == 77
'''),
 dict(id="c29_bce_scalar_target", property="C29",
  edits=[(N+"loss_fn/_binary_crossentropy_loss.py", '''        return 0.5 * (
            F.binary_cross_entropy_with_logits(real_logits, target)
            + F.binary_cross_entropy_with_logits(
                fake_logits,
                torch.zeros_like(target),
            )
        )
''', '''        logits = torch.cat([real_logits, fake_logits])
        return F.binary_cross_entropy_with_logits(
            logits, torch.cat([target, torch.zeros_like(fake_logits)])
        )
''')],
  needs="a real and a fake batch of different size",
  breaks="the two halves are no longer weighted equally",
  demo='''
import torch
import torch.nn.functional as F
from neuralcompression.loss_fn import BinaryCrossentropyDiscriminatorLoss as L
torch.manual_seed(0)
r, f = torch.randn(2, 1), torch.randn(2, 1) * 3
a = L()(r, f, torch.tensor(1.0))
assert torch.allclose(a, 0.5 * (F.softplus(-r).mean() + F.softplus(f).mean()))
try:
    L()(torch.randn(2, 1), torch.randn(3, 1), torch.tensor(1.0))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id="c30_hsv_grey_shortcut", property="C30",
  edits=[(N+"functional/_hsv_to_rgb.py", '''    # from Wikipedia, hsv to rgb alternative
''', '''    # grey images need no conversion
    if not hsv[:, 1].all():
        return hsv[:, 2:].repeat(1, 3, 1, 1)

    # from Wikipedia, hsv to rgb alternative
''')],
  needs="an image that contains both a grey and a coloured pixel",
  breaks="one unsaturated pixel turns the whole batch grey",
  demo='''
import torch
from neuralcompression.functional import hsv_to_rgb
x = torch.tensor([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0]]).reshape(1, 3, 1, 2)
assert hsv_to_rgb(x)[0, :, 0, 0].tolist() == [1.0, 0.0, 0.0]
'''),
 dict(id="c30_scale_float_truncation", property="C30",
  edits=[(N+"functional/_image_to_255_scale.py", '''    image = torch.round(image * 255.0)

    if dtype is not None:
        image = image.to(dtype)
''', '''    image = image * 255.0

    if dtype is not None and not dtype.is_floating_point:
        image = (image + 0.5).to(dtype)
    else:
        image = torch.round(image).to(dtype or image.dtype)
''')],
  needs="an input in half precision, or an exact tie",
  breaks="ties round up instead of to even, so the integer and float outputs disagree",
  demo='''
import torch
from neuralcompression.functional import image_to_255_scale
x = torch.arange(512, dtype=torch.float64).reshape(1, 1, 1, -1) / 510
x = x[..., :511]
assert torch.equal(image_to_255_scale(x, torch.uint8).double(), image_to_255_scale(x))
'''),
 dict(id="c30_flow_magnitude_per_image", property="C30",
  edits=[(N+"functional/_optical_flow_to_color.py", '''    mag = mag / (mag.max() + eps)
''', '''    mag = mag / (mag.amax(dim=(-2, -1), keepdim=True) + eps)
''')],
  needs="a batch of flows with different magnitude",
  breaks="the magnitudes are normalised per image, so flows of a batch cannot be compared",
  demo='''
import torch
from neuralcompression.functional import optical_flow_to_color
f = torch.zeros(2, 2, 1, 2)
f[0, 1, 0, 1] = 1.0
f[1, 1, 0, 1] = 4.0
o = optical_flow_to_color(f).amax(dim=(1, 2, 3))
assert abs(float(o[0] / o[1]) - 0.25) < 1e-3
'''),
 dict(id="c30_warp_swapped_grid", property="C30",
  edits=[(N+"functional/_dense_image_warp.py", '''    base_grid = _create_dense_warp_base_grid(
        flow.shape[1], flow.shape[2], dtype=image.dtype, device=image.device
    ).repeat(flow.shape[0], 1, 1, 1)
''', '''    base_grid = _create_dense_warp_base_grid(
        image.shape[2], image.shape[3], dtype=image.dtype, device=image.device
    )
    if base_grid.shape[1:3] != flow.shape[1:3]:
        base_grid = F.interpolate(
            base_grid.permute(0, 3, 1, 2), flow.shape[1:3], mode="bilinear"
        ).permute(0, 2, 3, 1)
    base_grid = base_grid.repeat(flow.shape[0], 1, 1, 1)
''')],
  needs="a flow field of another size than the image",
  breaks="the sampling grid is a resized image grid, not the grid spanning [-1, 1]",
  demo='''
import torch, torch.nn.functional as F
from neuralcompression.functional import dense_image_warp
im = torch.arange(16.0).reshape(1, 1, 4, 4)
o = dense_image_warp(im, torch.zeros(1, 2, 2, 2), align_corners=True)
assert torch.allclose(o.flatten(), torch.tensor([0.0, 3.0, 12.0, 15.0])), o
'''),
 dict(id="c31_schedule_inclusive", property="C31",
  edits=[(ILLM+"target_compression_module.py", '''            if self.trainer.global_step < sched_step:
''', '''            if self.trainer.global_step <= sched_step:
''')],
  needs="the step at which a schedule changes",
  breaks="the factor changes one step late",
  files=["mc/fakelightning.py"],
  demo='''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "illm"))
import fakelightning
fakelightning.install()
import target_compression_module as m
class S:
    class trainer:
        global_step = 5
f = m.TargetRateCompressionModule._get_scheduled_rate_param
assert f(S(), 1.0, [2.0, 1.0], [5]) == 1.0
'''),
 dict(id="c31_batch_rate_mean", property="C31",
  edits=[(ILLM+"target_compression_module.py", '''        lams = torch.where(
            quantized_total_bpp > target, lam2, self.target_rate_config.lam_levels[0]
        )
''', '''        lams = torch.where(
            total_bpp.detach() > target, lam2, self.target_rate_config.lam_levels[0]
        )
''')],
  needs="an image whose noisy rate and quantised rate lie on different sides of the target",
  breaks="the weight is chosen from the noisy rate instead of the quantised one",
  files=["mc/fakelightning.py"],
  demo='''
import os, sys, torch
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "illm"))
import fakelightning
fakelightning.install()
import torchmetrics.image as tmi
for n in ("FrechetInceptionDistance", "LearnedPerceptualImagePatchSimilarity"):
    tmi.__dict__[n] = fakelightning.Recorder
import target_compression_module as m
from neuralcompression.loss_fn import TargetRateConfig
mod = m.TargetRateCompressionModule(model=torch.nn.Identity(), target_rate_config=TargetRateConfig(1.0, [1.0], [], (0.5, 4.0), [1.0], []), optimizer_config=None)
mod.trainer = type("T", (), {"global_step": 0})()
p = lambda b: torch.full((1, 1, 1, 1), 2.0 ** -b)
o = mod.rate_loss(torch.zeros(1, 3, 1, 1), p(0.5), p(3.0), p(0.0), p(0.0))
assert abs(float(o.rate_loss) - 2.0) < 1e-5, o.rate_loss
'''),
 dict(id="c33_disc_latent_attached", property="C33",
  edits=[(ILLM+"gan_compression_module.py", '''            self.run_discriminator(output.image, output.latent.detach()), fake_target
''', '''            self.run_discriminator(output.image, output.latent), fake_target
''')],
  needs="a conditional discriminator",
  breaks="the generator loss reaches the encoder through the conditioning latent",
  files=["mc/fakelightning.py"],
  demo='''
import os, sys, torch
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "illm"))
import fakelightning
fakelightning.install()
import gan_compression_module as g
seen = []
class Stop(Exception):
    pass
class S:
    optimizers = lambda s: (1, 2)
    lr_schedulers = lambda s: (1, 2)
    mc_sampling = False
    latent_projector = None
    disable_gradients = enable_gradients = lambda s, o: None
    _resample_batch = g.GANCompressionModule._resample_batch
    distortion_loss = generator_loss = staticmethod(lambda *a, **k: 0.0)
    def model(self, x):
        y = x.clone().requires_grad_() * 1.0
        return type("O", (), {"image": y, "latent": y})
    def run_discriminator(self, im, ctx):
        seen.append(ctx.requires_grad)
        raise Stop
try:
    g.GANCompressionModule.training_step(S(), torch.zeros(2, 3, 4, 4), 0)
except Stop:
    pass
assert seen == [False], seen
'''),
 dict(id="c33_mc_split_overlap", property="C33",
  edits=[(ILLM+"gan_compression_module.py", '''            disc_images = full_images[split_ind : split_ind * 2]
''', '''            disc_images = full_images[-split_ind:]
''')],
  needs="an odd batch size (the last image), or a batch of one",
  breaks="the discriminator half is another one than documented, and a batch of one is used whole",
  files=["mc/fakelightning.py"],
  demo='''
import os, sys, torch
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "illm"))
import fakelightning
fakelightning.install()
import gan_compression_module as g
a, b = g.GANCompressionModule._resample_batch(None, torch.arange(1.0).reshape(1, 1), True)
assert len(a) == len(b) == 0, (a, b)
'''),
 dict(id="c33_clip_before_scale", property="C33",
  edits=[(ILLM+"gan_compression_module.py", '''        disc_opt.step()
        disc_sched.step()
''', '''        disc_opt.step()
        if self.mc_sampling:
            disc_sched.step()
''')],
  needs="training without Monte-Carlo batch splitting and a discriminator schedule",
  breaks="the discriminator's learning-rate schedule never advances when batches are shared",
  files=["mc/fakelightning.py"],
  demo='''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "illm"))
import fakelightning
fakelightning.install()
import torch, gan_compression_module as g
from unittest.mock import MagicMock
n = []
class S(MagicMock):
    pass
s = MagicMock()
mo, do, ms, dsch = MagicMock(), MagicMock(), MagicMock(), MagicMock()
s.optimizers.return_value = (mo, do)
s.lr_schedulers.return_value = (ms, dsch)
s.mc_sampling = False
s.gradient_clip_val = None
s._resample_batch.return_value = (torch.zeros(2), torch.zeros(2))
g.GANCompressionModule.training_step(s, torch.zeros(2), 0)
assert dsch.step.call_count == 1, dsch.step.call_count
'''),
]
