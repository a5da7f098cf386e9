"""C14: MS-SSIM, PSNR and distortion losses against float64 references on complete lattices."""
import itertools
import math
import sys
import numpy as np
import torch
import torch.nn as nn
from . import core

PID = "C14"
ASSUMPTIONS = ["images are finite; MS-SSIM constants k1,k2 > 0", "LPIPS backbones (weights not downloadable) are replaced by small deterministic networks with the same interface; the calibrated linear layers are the real ones",
               "PSNR is checked for integer and float32/float64 images"]


def bounds(tier):
    q = tier == "quick"
    return ("MS-SSIM: windows 1,3,5(,7), 1..4 scales, every height and width from below the minimum to %d above it, 1..3 channels, batch 1..3, all pairs of 3x3 binary images, all pairs of 2x2 ternary images with two scales, default configuration at 161..%d; "
            "PSNR: all 65536 pairs of 8-bit values and all pairs of 2-pixel images over 7 values x 8 dtypes x 3 ranges; losses: all parameter pairs x image families x 3 backbones x 2 versions x options" % (4 if q else 9, 177 if q else 200))


# ---------------------------------------------------------------- references
def gwin(n, s):
    i = np.arange(-(n // 2), n // 2 + 1)
    g = np.exp(-0.5 * (i / s) ** 2)
    return g / g.sum()


def filt(x, w):
    """valid separable filtering of [..., H, W]"""
    n = len(w)
    h, wd = x.shape[-2], x.shape[-1]
    y = sum(w[i] * x[..., i:h - n + 1 + i, :] for i in range(n))
    return sum(w[i] * y[..., :, i:wd - n + 1 + i] for i in range(n))


def down(x):
    h, w = x.shape[-2:]
    if h % 2:
        x = np.concatenate([x, x[..., -1:, :]], -2)
    if w % 2:
        x = np.concatenate([x, x[..., :, -1:]], -1)
    return (x[..., 0::2, 0::2] + x[..., 1::2, 0::2] + x[..., 0::2, 1::2] + x[..., 1::2, 1::2]) / 4


def ref_msssim(x, y, L, n, k1, k2, sd, factors):
    """per image score; None if too small"""
    x, y = np.asarray(x, np.float64), np.asarray(y, np.float64)
    w = gwin(n, sd)
    c1, c2 = (k1 * L) ** 2, (k2 * L) ** 2
    total = 1.0
    for s, f in enumerate(factors):
        if s:
            x, y = down(x), down(y)
        if min(x.shape[-2:]) < n:
            return None
        ux, uy = filt(x, w), filt(y, w)
        vx, vy, vxy = filt(x * x, w) - ux * ux, filt(y * y, w) - uy * uy, filt(x * y, w) - ux * uy
        lum = (2 * ux * uy + c1) / (ux ** 2 + uy ** 2 + c1)
        cs = (2 * vxy + c2) / (vx + vy + c2)
        v = lum * cs if s == len(factors) - 1 else cs
        total = total * np.maximum(v.mean(axis=(-2, -1)), 0) ** f
    return total.mean(axis=1)


def ref_psnr(a, b, r):
    a, b = np.asarray(a).astype(np.float64), np.asarray(b).astype(np.float64)
    m = float(((a - b) ** 2).mean())
    return math.inf if m == 0 else 20 * math.log10(r) - 10 * math.log10(m)


def img(b, c, h, w, s):
    i = np.arange(b * c * h * w).reshape(b, c, h, w)
    return ((i * (37 + 10 * s) + (i // 5) * (11 + s) + s * 29 + (i * i) % 53) % 101) / 101.0


CONF = [dict(n=1, sd=1.5, f=(1.0,)), dict(n=1, sd=0.7, f=(0.3, 0.7)), dict(n=3, sd=1.5, f=(0.5, 0.5)),
        dict(n=3, sd=0.8, f=(0.2, 0.3, 0.5)), dict(n=5, sd=1.5, f=(1.0,)), dict(n=5, sd=2.0, f=(0.4, 0.6)),
        dict(n=3, sd=1.5, f=(0.0448, 0.2856, 0.3001, 0.2363)), dict(n=7, sd=1.0, f=(0.25, 0.75))]


def minsize(n, scales):
    m = n
    for _ in range(scales - 1):
        m = 2 * m - 1
    return m


def cases(tier):
    q = tier == "quick"
    for i, c in enumerate(CONF):
        m = minsize(c["n"], len(c["f"]))
        for h in range(max(1, m - 2), m + (5 if q else 10)):
            yield {"kind": "ssim", "conf": i, "h": h, "span": 5 if q else 10}
    yield {"kind": "binary"}
    yield {"kind": "ternary"}
    yield {"kind": "invalid"}
    for h, w in ([(160, 176), (176, 160), (161, 161), (176, 176), (177, 163)] + ([] if q else [(a, b) for a in range(159, 200, 3) for b in (161, 170, 181)])):
        yield {"kind": "default", "h": h, "w": w}
    for lo in range(0, 256, 32):
        yield {"kind": "psnr8", "lo": lo}
    for dt in ("uint8", "int8", "int16", "int32", "int64", "float32", "float64"):
        yield {"kind": "psnr", "dt": dt}
    yield {"kind": "psnr_shape"}
    yield {"kind": "mse"}
    for net in ("alex", "vgg", "squeeze"):
        yield {"kind": "lpips", "net": net}
        yield {"kind": "mselpips", "net": net}


def close(a, b, tol):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol + tol * np.abs(b)))


def run_ssim(t, case):
    from neuralcompression.functional import multiscale_structural_similarity as ms
    c = CONF[case["conf"]]
    n, sd, f = c["n"], c["sd"], c["f"]
    m = minsize(n, len(f))
    h = case["h"]
    for w in range(max(1, m - 2), m + case["span"]):
        for b, ch, L, k in itertools.product((1, 3), (1, 3), (1.0, 255.0), ((0.01, 0.03), (0.05, 0.02))):
            kw = dict(data_range=L, window_size=n, k1=k[0], k2=k[1], gaussian_std=sd, power_factors=f)
            x, y = img(b, ch, h, w, 1) * L, img(b, ch, h, w, 2) * L
            info = dict(h=h, w=w, b=b, ch=ch, L=L, **c)
            r = ref_msssim(x, y, L, n, k[0], k[1], sd, f)
            xt, yt = torch.from_numpy(x), torch.from_numpy(y)
            t.state("ssim", case["conf"], h, w, b, ch, L, k)
            if r is None:
                t.must_raise(f"image smaller than the window {info}", RuntimeError, ms, xt, yt, **kw)
                continue
            # blends give scores over the whole range, not only near zero
            for mix in (0.0, 0.5, 0.9):
                z = y * (1 - mix) + x * mix
                zt = torch.from_numpy(z)
                r = ref_msssim(x, z, L, n, k[0], k[1], sd, f)
                ok, v = t.attempt("ms-ssim", ms, xt, zt, reduction="none", info=info, **kw)
                if not ok:
                    return
                t.trace()
                t.check(close(v.numpy(), r, 1e-7), f"ms-ssim {v.tolist()} differs from its definition {r.tolist()} for {info}")
                t.check(close(ms(zt, xt, reduction="none", **kw).numpy(), r, 1e-7), f"ms-ssim is not symmetric for {info}")
                t.check(bool(((v >= 0) & (v <= 1 + 1e-9)).all()), f"ms-ssim {v.tolist()} outside [0,1] for {info}")
                t.check(close(ms(xt, zt, reduction="mean", **kw).numpy(), r.mean(), 1e-7), f"mean reduction differs for {info}")
                t.check(close(ms(xt, zt, reduction="sum", **kw).numpy(), r.sum(), 1e-7), f"sum reduction differs for {info}")
                if (L, k) == (1.0, (0.01, 0.03)):
                    g = ms(xt.float(), zt.float(), reduction="none", **kw)
                    t.check(close(g.numpy(), r, 2e-3), f"single precision ms-ssim {g.tolist()} vs {r.tolist()} for {info}")
                for j in range(b):
                    t.check(close(ms(xt[j:j + 1], zt[j:j + 1], reduction="none", **kw)[0].numpy(), r[j], 1e-7),
                            f"score of image {j} depends on its batch for {info}")
                t.step(4 + b)
            for dt in (torch.float32, torch.float64):
                v = ms(xt.to(dt), xt.to(dt).clone(), reduction="none", **kw)
                t.check(close(v.numpy(), np.ones(b), 1e-6), f"identical images score {v.tolist()} for {info}")
            t.check(torch.equal(xt, torch.from_numpy(x)) and torch.equal(yt, torch.from_numpy(y)), "inputs modified")
    t.sample({"conf": c, "h": h})


def run_grid_images(t, vals, size, conf):
    from neuralcompression.functional import multiscale_structural_similarity as ms
    n, sd, f = conf
    al = np.array(list(itertools.product(vals, repeat=size * size))).reshape(-1, 1, size, size)
    kw = dict(data_range=1.0, window_size=n, gaussian_std=sd, power_factors=f)
    for i in range(len(al)):
        x = np.broadcast_to(al[i:i + 1], al.shape)
        r = ref_msssim(x, al, 1.0, n, 0.01, 0.03, sd, f)
        v = ms(torch.from_numpy(np.ascontiguousarray(x)), torch.from_numpy(al), reduction="none", **kw).numpy()
        t.step()
        t.trace(len(al))
        t.state(size, i)
        # tiny positive / zero bases raised to fractional powers amplify rounding
        good = np.abs(v - r) <= 1e-6
        t.check(bool(good.all()), f"ms-ssim of binary/ternary image pair {al[i].ravel().tolist()} / "
                f"{al[int(np.argmin(good))].ravel().tolist()} is {v[int(np.argmin(good))]} instead of {r[int(np.argmin(good))]}")
        t.check(abs(v[i] - 1) < 1e-9, f"identical images {al[i].ravel().tolist()} score {v[i]}")


def run_invalid(t):
    from neuralcompression.functional import multiscale_structural_similarity as ms
    x = torch.rand(1, 1, 32, 32, generator=torch.Generator().manual_seed(0))
    for red in ("max", "", "None", "MEAN", "avg"):
        t.must_raise(f"reduction {red!r}", ValueError, ms, x, x, window_size=3, power_factors=(1.0,), reduction=red)
    for w in (0, 2, 4, -1, -3, 10):
        t.must_raise(f"window size {w}", (ValueError, RuntimeError), ms, x, x, window_size=w, power_factors=(1.0,))
    t.state("invalid")


def run_default(t, case):
    from neuralcompression.functional import multiscale_structural_similarity as ms
    h, w = case["h"], case["w"]
    x, y = img(2, 3, h, w, 1), img(2, 3, h, w, 2)
    f = (0.0448, 0.2856, 0.3001, 0.2363, 0.1333)
    for mix in (0.0, 0.6, 0.95):
        z = x * mix + y * (1 - mix)
        r = ref_msssim(x, z, 1.0, 11, 0.01, 0.03, 1.5, f)
        t.state("default", h, w, mix)
        if r is None:
            t.must_raise(f"default configuration at {h}x{w}", RuntimeError, ms, torch.from_numpy(x), torch.from_numpy(z))
            continue
        ok, v = t.attempt("default", ms, torch.from_numpy(x), torch.from_numpy(z))
        t.trace()
        if ok:
            t.check(close(v.numpy(), r.mean(), 1e-7), f"default ms-ssim {float(v)} vs {r.mean()} at {h}x{w}")


def psnr_pair(t, a, b, r, info):
    """a, b numpy arrays of one dtype; checks both implementations and symmetry."""
    from neuralcompression.metrics import calc_psnr, calc_psnr_numpy
    ref = ref_psnr(a, b, r)
    with np.errstate(all="ignore"):
        for name, f in (("torch", lambda p, q: float(calc_psnr(torch.from_numpy(p), torch.from_numpy(q), r))),
                        ("numpy", lambda p, q: float(calc_psnr_numpy(p, q, r)))):
            for p, q in ((a, b), (b, a)):
                ok, v = t.attempt(f"psnr {name} {info}", f, p, q)
                if ok:
                    t.check(v == ref or abs(v - ref) <= 2e-5 * max(1, abs(ref)),
                            f"{name} psnr of {info} is {v}, textbook value {ref}")


def run_psnr8(t, case):
    from neuralcompression.metrics import calc_psnr, calc_psnr_numpy
    for a in range(case["lo"], case["lo"] + 32):
        for b in range(256):
            pa, pb = np.full((1, 1, 1, 1), a, np.uint8), np.full((1, 1, 1, 1), b, np.uint8)
            ref = math.inf if a == b else 20 * math.log10(255) - 20 * math.log10(abs(a - b))
            with np.errstate(all="ignore"):
                v = float(calc_psnr_numpy(pa, pb))
                t.check(v == ref or abs(v - ref) < 1e-4, f"numpy psnr of 8-bit {a} vs {b} is {v}, expected {ref}")
            ok, v = t.attempt("psnr", lambda: float(calc_psnr(torch.from_numpy(pa), torch.from_numpy(pb))))
            if not ok:
                return
            t.check(v == ref or abs(v - ref) < 1e-4, f"psnr of 8-bit {a} vs {b} is {v}, expected {ref}")
            t.step()
        t.state("psnr8", a)
        t.trace(256)


def run_psnr(t, case):
    dt = np.dtype(case["dt"])
    if dt.kind == "u":
        vals = [0, 1, 2, 127, 128, 254, 255]
    elif dt.kind == "i":
        vals = [-128, -1, 0, 1, 100, 127, 13] if dt.itemsize == 1 else [-300, 0, 1, 200, 255, 20000, -20000]
    else:
        vals = [0.0, 1.0, 0.5, -1.0, 255.0, 1e-3, 127.25]
    prs = list(itertools.product(vals, repeat=2))
    for a, b in itertools.product(prs, repeat=2):
        if a > b:
            continue
        for r in (1.0, 255.0, 2.0):
            psnr_pair(t, np.array(a, dt).reshape(1, 1, 1, 2), np.array(b, dt).reshape(1, 1, 1, 2), r, f"{dt} {a} vs {b} range {r}")
        t.state(case["dt"], a, b)
        t.trace()
    t.sample({"dtype": case["dt"]})


def run_psnr_shape(t):
    for shape in itertools.product((1, 2, 3), (1, 3), (1, 4, 7), (1, 5, 8)):
        n = int(np.prod(shape))
        for dt in (np.uint8, np.float32, np.float64, np.int32):
            i = np.arange(n).reshape(shape)
            x, y = ((i * 37) % 256).astype(dt), ((i * 91 + 13) % 256).astype(dt)
            psnr_pair(t, x, y, 255.0, f"{np.dtype(dt)} shape {shape}")
            psnr_pair(t, x, x.copy(), 255.0, f"identical {np.dtype(dt)} shape {shape}")
            # error grows -> psnr decreases (one more wrong pixel at a time)
            t.state("shape", shape, str(dt))
    from neuralcompression.metrics import calc_psnr
    for dt in (torch.uint8, torch.float32):
        x = torch.zeros(1, 1, 4, 4, dtype=dt)
        prev = math.inf
        y = x.clone().view(-1)
        for k in range(16):
            for d in (1, 64, 128, 255):
                y[k] = d
                v = float(calc_psnr(y.view(1, 1, 4, 4), x))
                t.check(v < prev, f"psnr does not decrease when pixel {k} gets error {d} ({dt}): {prev} -> {v}")
                prev = v
    t.trace()


def run_mse(t):
    from neuralcompression.loss_fn import MSELoss
    for shape in itertools.product((1, 2, 3), (1, 3), (1, 4, 5), (1, 4)):
        n = int(np.prod(shape))
        for sx, sy in ((1, 2), (1, 1), (3, 4)):
            x, y = img(*shape, sx), img(*shape, sy)
            mse = float(((x - y) ** 2).mean())
            for sc in (None, 1.0, 255.0 ** 2, 0.25, 0.0):
                loss = MSELoss() if sc is None else MSELoss(sc)
                eff = 255.0 ** 2 if sc is None else sc
                xt, yt = torch.from_numpy(x).requires_grad_(), torch.from_numpy(y)
                v = loss(xt, yt)
                t.step()
                t.check(v.shape == () and abs(float(v) - eff * mse) <= 1e-9 * (1 + eff * mse), f"MSELoss({sc}) of {shape} is {float(v)} instead of {eff * mse}")
                t.check(float(v) >= 0 and ((float(v) == 0) == (mse == 0 or eff == 0)), f"MSELoss({sc}) sign/zero wrong: {float(v)}")
                v.backward()
                t.check(close(xt.grad.numpy(), eff * 2 * (x - y) / n, 1e-9), "gradient of MSELoss")
                t.check(abs(float(loss(yt, xt.detach())) - float(v)) <= 1e-9 * (1 + abs(float(v))), "MSELoss not symmetric")
        t.state("mse", shape)
        t.trace()


# --------------------------------------------------------------------- LPIPS
CHNS = {"alex": [64, 192, 384, 256, 256], "vgg": [64, 128, 256, 512, 512], "squeeze": [64, 128, 256, 384, 384, 512, 512]}


def trunk(kind):
    class Trunk(nn.Module):
        """per-layer features: fixed channel mix of the image and its pooled versions, with dead (zero) regions"""

        def __init__(self, requires_grad=False, pretrained=True):
            super().__init__()
            self.chns = CHNS[kind]
            self.bias = nn.Parameter(torch.zeros(1))
            self.drop = nn.Dropout(0.5)

        def forward(self, x):
            out = []
            for k, c in enumerate(self.chns):
                i = torch.arange(c, dtype=x.dtype).view(1, c, 1, 1)
                a = torch.sin(i * (k + 1)) * x[:, 0:1] + torch.cos(i * 0.5 + k) * x[:, 1:2] + torch.sin(i * 0.3 - k) * x[:, 2:3]
                a = torch.relu(a)
                out.append(self.drop(a + self.bias))
                if min(x.shape[2:]) >= 2:
                    x = nn.functional.avg_pool2d(x, 2) + 0.1 * (k % 2)
            return tuple(out)
    return Trunk


class patched:
    def __enter__(self):
        import lpips.lpips as L
        self.pn = L.pn
        self.old = (L.pn.alexnet, L.pn.vgg16, L.pn.squeezenet)
        L.pn.alexnet, L.pn.vgg16, L.pn.squeezenet = trunk("alex"), trunk("vgg"), trunk("squeeze")

    def __exit__(self, *a):
        self.pn.alexnet, self.pn.vgg16, self.pn.squeezenet = self.old


def ref_lpips(net, x, y, normalize, version, calib, fix, spatial=False):
    """per image LPIPS and per layer maps (float64 on the same trunk)"""
    import lpips
    import os
    x, y = torch.from_numpy(x).double(), torch.from_numpy(y).double()
    size = tuple(x.shape[2:])
    if normalize:
        x, y = 2 * x - 1, 2 * y - 1
    if version == "0.1":
        sh = torch.tensor([-.030, -.088, -.188], dtype=torch.float64).view(1, 3, 1, 1)
        sc = torch.tensor([.458, .448, .450], dtype=torch.float64).view(1, 3, 1, 1)
        x, y = (x - sh) / sc, (y - sh) / sc
    tr = trunk(net)().eval()
    sd = torch.load(os.path.join(os.path.dirname(lpips.__file__), f"weights/v{version}/{net}.pth"), map_location="cpu")
    layers = []
    with torch.no_grad():
        for k, (a, b) in enumerate(zip(tr(x), tr(y))):
            def nrm(v):
                if fix:
                    return v / torch.sqrt((v ** 2 + 1e-8).sum(1, keepdim=True))
                return v / (torch.sqrt((v ** 2).sum(1, keepdim=True)) + 1e-10)
            d = (nrm(a) - nrm(b)) ** 2
            w = sd[f"lin{k}.model.1.weight"].double() if calib else torch.ones(1, d.shape[1], 1, 1, dtype=torch.float64)
            m = (d * w).sum(1, keepdim=True)
            if spatial:
                m = nn.functional.interpolate(m, size=size, mode="bilinear", align_corners=False)
            else:
                m = m.mean(dim=(2, 3), keepdim=True)
            layers.append(m)
    return sum(layers).numpy(), [v.numpy() for v in layers]


def lp_images():
    for (b, h, w) in ((1, 4, 4), (2, 5, 6), (3, 8, 4)):
        x, y = img(b, 3, h, w, 1), img(b, 3, h, w, 2)
        yield f"{b}x{h}x{w}", x, y
        yield f"{b}x{h}x{w} equal", x, x.copy()
        yield f"{b}x{h}x{w} const", np.zeros_like(x), np.ones_like(x)
        z = x.copy()
        z[:, :, 0, 0] = y[:, :, 0, 0]
        yield f"{b}x{h}x{w} onepixel", x, z


def run_lpips(t, case):
    from neuralcompression.functional import lpips as flpips
    net = case["net"]
    with patched():
        for name, x, y in lp_images():
            for norm, ver, cal in itertools.product((False, True), ("0.0", "0.1"), (True, False)):
                ref = ref_lpips(net, x, y, norm, ver, cal, False)[0].ravel()
                kw = dict(base_network=net, use_linear_calibration=cal, linear_weights_version=ver, normalize=norm)
                xf, yf = torch.from_numpy(x).float(), torch.from_numpy(y).float()
                info = f"{net} {name} normalize={norm} v{ver} calib={cal}"
                ok, v = t.attempt("lpips " + info, flpips, xf, yf, reduction="none", **kw)
                if not ok:
                    return
                t.state(info)
                t.trace()
                t.check(v.shape == (x.shape[0],) and close(v.numpy(), ref, 1e-4), f"lpips {info}: {v.tolist()} instead of {ref.tolist()}")
                t.check(bool((v >= -1e-6).all()), f"negative lpips {info}")
                t.check(close(float(flpips(xf, yf, reduction="mean", **kw)), ref.mean(), 1e-4), f"lpips mean reduction {info}")
                t.check(close(float(flpips(xf, yf, reduction="sum", **kw)), ref.sum(), 1e-4), f"lpips sum reduction {info}")
                if "equal" in name:
                    t.check(bool((v.abs() < 1e-6).all()), f"lpips of identical images is {v.tolist()} {info}")
                t.step(2)
        d = flpips(xf, yf)
        t.check(close(float(d), ref_lpips("alex", x, y, False, "0.1", True, False)[0].mean(), 1e-4), "default lpips arguments")
        for bad in (dict(base_network="resnet"), dict(base_network=""), dict(linear_weights_version="0.2"), dict(linear_weights_version="1"), dict(reduction="max")):
            t.must_raise(f"lpips {bad}", ValueError, flpips, xf, yf, **bad)


def run_mselpips(t, case):
    from neuralcompression.loss_fn import MSELPIPSLoss, NormFixLPIPS
    net = case["net"]
    with patched():
        for ver, cal, spatial in itertools.product(("0.1", "0.0"), (True, False), (False, True)):
            m = NormFixLPIPS(net=net, version=ver, lpips=cal, spatial=spatial, verbose=False)
            for mode in (None, True, False):
                if mode is not None:
                    m.train(mode)
                t.check(not any(s.training for s in m.modules()), f"LPIPS network in training mode after train({mode})")
                for name, x, y in lp_images():
                    for norm in (True, False):
                        ref, layers = ref_lpips(net, x, y, norm, ver, cal, True, spatial)
                        ok, v = t.attempt("normfix", m, torch.from_numpy(x).float(), torch.from_numpy(y).float(), normalize=norm)
                        if not ok:
                            return
                        t.check(close(v.detach().numpy(), ref, 1e-4), f"NormFixLPIPS {net} {ver} lpips={cal} spatial={spatial} {name} normalize={norm}")
                        v2, per = m(torch.from_numpy(x).float(), torch.from_numpy(y).float(), retPerLayer=True, normalize=norm)
                        t.check(torch.equal(v2, v) and len(per) == len(layers) and all(close(p.detach().numpy(), q, 1e-4) for p, q in zip(per, layers)), "per layer values")
                        t.state(net, ver, cal, spatial, mode, name, norm)
                        t.trace()
        for mp, lp, norm in itertools.product((255.0 ** 2, 0.0, 1.0, 0.5), (1.0, 0.0, 4.0), (True, False)):
            loss = MSELPIPSLoss(mse_param=mp, lpips_param=lp, normalize=norm, backbone=net)
            t.check(not any(p.requires_grad for p in loss.lpips_model.parameters()), "LPIPS network is trainable")
            for hist in ((), (True,), (False, True)):
                for md in hist:
                    getattr(loss, "train", lambda *_: None)(md)
                    loss.lpips_model.train(md)
                for name, x, y in lp_images():
                    ref = mp * float(((x - y) ** 2).mean()) + lp * float(ref_lpips(net, x, y, norm, "0.1", True, True)[0].mean())
                    xt = torch.from_numpy(x).float().requires_grad_()
                    v = loss(xt, torch.from_numpy(y).float())
                    t.check(v.shape == () and close(float(v), ref, 1e-4), f"MSELPIPS({mp},{lp},{norm},{net}) {name}: {float(v)} instead of {ref}")
                    t.check(float(v) >= -1e-6, "negative loss")
                    if v.requires_grad:
                        v.backward()
                        t.check(bool(torch.isfinite(xt.grad).all()), f"gradient of MSELPIPS not finite for {name}")
                    t.step()
                    if hist:
                        break
            t.state("mselpips", net, mp, lp, norm)
        d = MSELPIPSLoss()
        x, y = img(2, 3, 8, 8, 1), img(2, 3, 8, 8, 2)
        ref = 255.0 ** 2 * float(((x - y) ** 2).mean()) + float(ref_lpips("vgg", x, y, True, "0.1", True, True)[0].mean())
        t.check(close(float(d(torch.from_numpy(x).float(), torch.from_numpy(y).float())), ref, 1e-4), "default MSELPIPS parameters")
        y = x + (y - x) / 64  # both parts weigh in
        ref = 255.0 ** 2 * float(((x - y) ** 2).mean()), float(ref_lpips("vgg", x, y, True, "0.1", True, True)[0].mean())
        got = float(d(torch.from_numpy(x).float(), torch.from_numpy(y).float()))
        t.check(abs(got - sum(ref)) <= 0.05 * ref[1] + 1e-4 * ref[0], f"default MSELPIPS parameters: {got}, expected {ref[0]} + {ref[1]}")


def run_case(t, case):
    torch.set_num_threads(1)
    k = case["kind"]
    if k == "ssim":
        run_ssim(t, case)
    elif k == "binary":
        run_grid_images(t, (0.0, 1.0), 3, (3, 1.5, (1.0,)))
    elif k == "ternary":
        run_grid_images(t, (0.0, 0.5, 1.0), 2, (1, 1.5, (1.0, 1.0)))
    elif k == "invalid":
        run_invalid(t)
    elif k == "default":
        run_default(t, case)
    elif k == "psnr8":
        run_psnr8(t, case)
    elif k == "psnr":
        run_psnr(t, case)
    elif k == "psnr_shape":
        run_psnr_shape(t)
    elif k == "mse":
        run_mse(t)
    elif k == "lpips":
        run_lpips(t, case)
    elif k == "mselpips":
        run_mselpips(t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
