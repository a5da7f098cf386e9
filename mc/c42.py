"""C42: folder evaluation: every small folder; what is printed is the average of what was coded."""
import contextlib
import importlib.util
import io
import itertools
import math
import os
import pickle
import re
import sys
import types
import numpy as np
import torch
import torch.nn as nn
from PIL import Image
from . import core, fsenv

PID = "C42"
ASSUMPTIONS = ["the hub model is a deterministic stand-in with the coding interface of the hub models; FID and LPIPS (networks not downloadable) are recorders; the GPU is the CPU",
               "an empty folder may be refused or reported in any way"]
# rows, columns: the evaluation's FID patches need 256 of both
SIZES = [(256, 256), (256, 300), (300, 257), (384, 384), (512, 384)]
MODES = ["RGB", "L", "RGBA", "P", "1", "LA"]


def bounds(tier):
    return "all folders of 1..%d images over 5 sizes (in both orders of coding), 6 colour modes and all sets of 4 kinds of other files; 4 stand-in coders that lose, brighten, darken or overshoot" % (2 if tier == "quick" else 3)


def cases(tier):
    for n in range(1, 3 if tier == "quick" else 4):
        for a in range(len(SIZES)):
            yield {"kind": "folder", "n": n, "a": a}
    yield {"kind": "modes"}
    yield {"kind": "others"}
    for e in range(8):
        yield {"kind": "levels", "part": e}


class Coder(nn.Module):
    """Quantises; the code has one byte for each 4 x 4 block and a header."""

    def __init__(self, log, gain=1.0, shift=0.0):
        super().__init__()
        self.p = nn.Parameter(torch.zeros(1))
        self.log, self.gain, self.shift, self.ready, self.dev = log, gain, shift, False, None

    def update(self, *a, **k):
        assert not self.training, "tables are built in training mode"
        self.ready = True
        return True

    def update_tensor_devices(self, mode):
        self.dev = mode

    def compress(self, image, force_cpu=True):
        assert self.ready and not self.training and self.dev == "compress" and force_cpu is False and not torch.is_grad_enabled(), "coder is not prepared for coding"
        assert image.shape[0] == 1
        q = (image[..., ::4, ::4] * 15).round().to(torch.uint8)
        h, w = image.shape[2:]
        # the rate depends on the image, so that means over images and over pixels differ
        out = {"size": (h, w), "code": q.numpy().tobytes(), "more": bytes(h * w // 8 * ((h + w) // 32 % 3))}
        self.log.append((image.clone(), out))
        return out

    def decompress(self, c, force_cpu=True):
        assert self.ready and not self.training and not torch.is_grad_enabled()
        h, w = c["size"]
        q = torch.frombuffer(bytearray(c["code"]), dtype=torch.uint8).reshape(1, 3, -(-h // 4), -(-w // 4)).float() / 15
        return (q.repeat_interleave(4, 2).repeat_interleave(4, 3)[..., :h, :w] * self.gain + self.shift)


class Metric(nn.Module):
    made = {}

    def __init__(self, *a, **k):
        super().__init__()
        self.args, self.calls = (a, k), []
        Metric.made[type(self).__name__] = self

    def update(self, *a, **k):
        self.calls.append((tuple(x.clone() if isinstance(x, torch.Tensor) else x for x in a), dict(k)))

    def forward(self, *a, **k):
        self.update(*a, **k)
        return torch.tensor(0.0)

    def compute(self):
        return torch.tensor(float(len(self.calls)))


class FrechetInceptionDistance(Metric):
    pass


class LearnedPerceptualImagePatchSimilarity(Metric):
    pass


class Torch:
    """torch, with the processor as its only device and this hub."""

    def __init__(self, model):
        self.hub = types.SimpleNamespace(load=lambda repo, name, *a, **k: (self.asked.append((repo, name)), model)[1])
        self.asked = []

    def device(self, *a):
        return torch.device("cpu")

    def __getattr__(self, n):
        return getattr(torch, n)


def evaluate(path, model):
    import torchmetrics.image as tmi
    for c in (FrechetInceptionDistance, LearnedPerceptualImagePatchSimilarity):
        tmi.__dict__[c.__name__] = c
    spec = importlib.util.spec_from_file_location("eval_folder_example", os.path.join(core.REPO, "projects", "illm", "eval_folder_example.py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    tt = Torch(model)
    mod.torch = tt
    Metric.made.clear()
    argv, sys.argv = sys.argv, ["eval_folder_example.py", path]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            mod.main()
    finally:
        sys.argv = argv
    vals = {k.strip().lower(): float(v) for k, v in re.findall(r"^([A-Za-z-]+):\s*(\S+)\s*$", out.getvalue(), re.M)}
    return vals, dict(Metric.made), tt.asked


def picture(h, w, code, mode="RGB"):
    y, x = np.mgrid[0:h, 0:w]
    a = np.stack([(x * 3 + y + code * 40) % 256, (y * 2 + code * 17) % 256, ((x + y) // 2 + 90 * code) % 256], -1).astype(np.uint8)
    im = Image.fromarray(a)
    if mode == "RGBA":
        im.putalpha(Image.fromarray((x % 256).astype(np.uint8)))
    if mode == "LA":
        im = im.convert("L")
        im.putalpha(Image.fromarray((y % 256).astype(np.uint8)))
    return im if mode in ("RGB", "RGBA", "LA") else im.convert(mode)


def levels(x):
    return np.floor(np.clip(x.double().numpy(), 0, 1) * 255 + 0.5)


def judge(t, what, path, names, gain=1.0, shift=0.0):
    log = []
    ok, res = t.attempt(what, evaluate, path, Coder(log, gain, shift))
    if not ok:
        return
    vals, made, asked = res
    t.check(len(asked) == 1 and asked[0] == ("facebookresearch/NeuralCompression", "msillm_quality_3"), f"{what}: model {asked}, documented is the 0.14 bpp one")
    want = {}
    for n in names:
        want[n] = np.asarray(Image.open(os.path.join(path, n)).convert("RGB")).transpose(2, 0, 1)[None]
    # every image of the folder exactly once, as stored
    left = dict(want)
    order = []
    for img, _ in log:
        hit = [n for n, a in left.items() if a.shape == tuple(img.shape) and np.abs(a / 255 - img.double().numpy()).max() < 1e-6]
        if not hit:
            break
        order.append(hit[0])
        del left[hit[0]]
    if not t.check(len(order) == len(log) == len(names) and not left, f"{what}: coded {len(log)} images, of the folder's {len(names)} left out {sorted(left)}"):
        return
    coder = Coder([], gain, shift).eval()
    coder.ready = True
    rate, psnr, rec, org = [], [], [], []
    for img, code in log:
        h, w = img.shape[2:]
        rate.append(len(pickle.dumps(code)) * 8 / (h * w))
        with torch.no_grad():
            dec = coder.decompress(code).clamp(0, 1)
        a, b = levels(img), levels(dec)
        mse = ((a - b) ** 2).mean()
        psnr.append(10 * math.log10(255 ** 2 / mse))
        rec.append(dec)
        org.append(img)
    near = lambda a, b, tol: a is not None and math.isfinite(a) and abs(a - b) <= tol * max(1.0, abs(b))
    # the serialised size may depend on the pickle protocol: a few bytes of header
    t.check(near(vals.get("rate"), float(np.mean(rate)), 0) or (vals.get("rate") is not None and abs(vals["rate"] - np.mean(rate)) <= np.mean([64 * 8 / (i.shape[2] * i.shape[3]) for i, _ in log])), f"{what}: rate {vals.get('rate')}, coded {np.mean(rate)} bits per pixel")
    t.check(near(vals.get("psnr"), float(np.mean(psnr)), 1e-4), f"{what}: PSNR {vals.get('psnr')}, definition {np.mean(psnr)}")
    from neuralcompression.functional import multiscale_structural_similarity as ms
    m = [float(ms(torch.from_numpy(levels(b)).float(), torch.from_numpy(levels(a)).float(), data_range=255.0)) for a, b in zip(org, rec)]
    t.check(near(vals.get("ms-ssim"), float(np.mean(m)), 1e-4), f"{what}: MS-SSIM {vals.get('ms-ssim')}, of the images {np.mean(m)}")
    lp = made.get("LearnedPerceptualImagePatchSimilarity")
    t.check(lp is not None and len(lp.calls) == len(log) and (lp.args[1].get("normalize") is True), f"{what}: LPIPS of {0 if lp is None else len(lp.calls)} pairs")
    if lp is not None and len(lp.calls) == len(log):
        for (a, _), d, o in zip(lp.calls, rec, org):
            t.check(all(0 <= float(x.min()) and float(x.max()) <= 1 for x in a[:2]) and ((torch.equal(a[0], d) and torch.equal(a[1], o)) or (torch.equal(a[0], o) and torch.equal(a[1], d))), f"{what}: LPIPS compares other images")
        t.check(vals.get("lpips") == float(len(lp.calls)), f"{what}: LPIPS {vals.get('lpips')}")
    fid = made.get("FrechetInceptionDistance")
    if t.check(fid is not None and fid.calls, f"{what}: FID has no patches"):
        n = {}
        for a, k in fid.calls:
            real = k["real"] if "real" in k else a[1]
            t.check(a[0].dtype == torch.uint8 and tuple(a[0].shape[2:]) == (256, 256), f"{what}: FID patches {a[0].dtype} {tuple(a[0].shape)}")
            n[real] = n.get(real, 0) + a[0].shape[0]
        # published protocol: the grid of whole patches, then the grid shifted by half a patch
        exp = sum((h // 256) * (w // 256) + ((h - 128) // 256) * ((w - 128) // 256) for h, w in [tuple(i.shape[2:]) for i, _ in log])
        t.check(n.get(True, 0) == n.get(False, 0) == exp, f"{what}: FID of {n} patches, protocol {exp}")
        t.check(vals.get("fid") == float(len(fid.calls)), f"{what}: FID {vals.get('fid')}")
    t.state(what)
    t.step(len(names))
    t.trace()


def make(root, items):
    d = os.path.join(root, "imgs")
    os.makedirs(d)
    for name, im in items:
        im.save(os.path.join(d, name))
    return d


def run_folder(t, case):
    n = case["n"]
    for rest in itertools.product(range(len(SIZES)), repeat=n - 1):
        ids = (case["a"],) + rest
        with fsenv.scratch() as root:
            items = [(f"{'zyx'[k % 3]}{k}.png", picture(*SIZES[i], k + 1)) for k, i in enumerate(ids)]
            judge(t, f"images of sizes {[SIZES[i] for i in ids]}", make(root, items), [x[0] for x in items])


def run_modes(t, case):
    for ms in itertools.product(MODES, repeat=2):
        with fsenv.scratch() as root:
            items = [(f"{k}.png", picture(256, 256 + 8 * k, k + 1, m)) for k, m in enumerate(ms)]
            judge(t, f"colour modes {ms}", make(root, items), [x[0] for x in items])


def run_others(t, case):
    others = ["notes.txt", "a.jpg", "sub/b.png", "c.png.bak"]
    for k in range(2 ** len(others)):
        with fsenv.scratch() as root:
            d = make(root, [("a.png", picture(256, 256, 1)), ("b c.png", picture(270, 257, 2))])
            for i, o in enumerate(others):
                if k >> i & 1:
                    p = os.path.join(d, o)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    picture(200, 200, 5).save(p, format="JPEG" if o.endswith("jpg") else "PNG")
            judge(t, f"other files {[o for i, o in enumerate(others) if k >> i & 1]}", d, ["a.png", "b c.png"])


def run_levels(t, case):
    gs = [(g, s) for g in (0.5, 1.0, 1.7) for s in (-0.4, 0.0, 0.6)]
    for g, s in gs[case["part"]::8]:
        with fsenv.scratch() as root:
            d = make(root, [("a.png", picture(256, 256, 1)), ("b.png", picture(280, 260, 3))])
            judge(t, f"coder with gain {g} and shift {s}", d, ["a.png", "b.png"], g, s)


def run_case(t, case):
    torch.set_num_threads(1)
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
