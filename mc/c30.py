"""C30: colour, 0-255 and warp conversions on complete value lattices against independent scalar references."""
import colorsys
import itertools
import math
import sys
from fractions import Fraction
import numpy as np
import torch
from . import core

PID = "C30"
ASSUMPTIONS = ["values are finite; comparisons allow rounding of the tensor's own precision", "colours of a flow field are normalised over the whole tensor, as documented by the code's use of one minimum and maximum"]
SAT = [0.0, 0.25, 0.5, 1.0]
VAL = [0.0, 0.3, 0.5, 1.0]
COMP = [0.0, -0.0, 1.0, -1.0, 0.5, -2.0, 1e-3, -1e-3, 1e-7, -1e-7, -1e-20, 3.7]
NP = {"float32": np.float32, "float64": np.float64}


def bounds(tier):
    return ("hue: every %s degrees and the neighbouring floats of each sextant boundary x 4 saturations x 4 values x 2 dtypes x every layout; flows: all 1- and 2-pixel fields over %d component values, and all one-value fields in batches; "
            "0-255: every level, every half-level and the neighbouring floats x 7 output types, one out-of-range value at every position; warps: all images up to 3x3 x flow sizes up to 3x3 x shift lattice x modes x paddings x corner alignments"
            % ("5" if tier == "quick" else "1", len(COMP)))


def cases(tier):
    q = tier == "quick"
    for dt in NP:
        for s in range(6):
            yield {"kind": "hsv", "dt": dt, "sextant": s, "stepdeg": 5 if q else 1}
        yield {"kind": "hsvshape", "dt": dt}
        for a in range(len(COMP)):
            yield {"kind": "flow", "dt": dt, "a": a, "full": not q}
        yield {"kind": "flowshape", "dt": dt}
        for c in range(4):
            yield {"kind": "scale", "dt": dt, "lo": 64 * c, "hi": 64 * (c + 1)}
        yield {"kind": "scaleshape", "dt": dt}
        for h, w in itertools.product((1, 2, 3), repeat=2):
            for pad in ("border", "zeros", "reflection"):
                yield {"kind": "warp", "dt": dt, "h": h, "w": w, "pad": pad, "full": not q}
    yield {"kind": "warpreject"}


def ulp(dt):
    return 2e-6 if dt == "float32" else 2e-14


def near(x, dt):
    f = NP[dt]
    x = f(x)
    return [float(np.nextafter(x, f(-np.inf))), float(x), float(np.nextafter(x, f(np.inf)))]


def rgb_ref(h, s, v):
    return colorsys.hsv_to_rgb((h % 360.0) / 360.0, s, v)


def run_hsv(t, case):
    from neuralcompression.functional import hsv_to_rgb
    dt = case["dt"]
    lo = 60 * case["sextant"]
    hues = [float(x) for x in range(lo, lo + 60, case["stepdeg"])] + [lo + 59.999] + near(lo, dt) + near(lo + 60, dt) + near(lo + 30, dt)
    hues = sorted({h for h in hues if 0.0 <= h <= 360.0})
    cols = list(itertools.product(hues, SAT, VAL))
    x = torch.tensor(cols, dtype=getattr(torch, dt)).T.reshape(1, 3, 1, -1)
    keep = x.clone()
    ok, whole = t.attempt("hsv_to_rgb of the lattice", hsv_to_rgb, x)
    if not ok:
        return
    t.check(torch.equal(x, keep), "the HSV tensor was modified")
    t.check(whole.shape == x.shape and whole.dtype == x.dtype, f"result {tuple(whole.shape)} {whole.dtype}")
    vals = whole[0, :, 0].T.tolist()
    stored = x[0, :, 0].T.tolist()
    tol = 4 * ulp(dt)
    for (h, s, v), got in zip(stored, vals):
        want = rgb_ref(h, s, v)
        t.check(max(abs(a - b) for a, b in zip(want, got)) <= tol, f"hsv {(h, s, v)} -> {got}, definition {want}")
        t.check(all(-tol <= c <= 1 + tol for c in got), f"hsv {(h, s, v)} -> {got} outside [0, 1]")
        t.check(abs(max(got) - v) <= tol and abs(min(got) - v * (1 - s)) <= tol, f"hsv {(h, s, v)} -> {got}: brightest channel is not the value, darkest not value x (1 - saturation)")
        if s == 0:
            t.check(max(got) - min(got) <= tol, f"hsv {(h, s, v)} -> {got} is not grey")
        t.state(h, s, v)
        t.step()
    for i in range(0, len(cols), 17):  # one colour at a time agrees with the whole image
        one = hsv_to_rgb(x[..., i:i + 1])
        t.check(torch.equal(one, whole[..., i:i + 1]), f"hsv {cols[i]}: the colour depends on the other pixels")
        t.trace()


def run_hsvshape(t, case):
    from neuralcompression.functional import hsv_to_rgb
    dt = getattr(torch, case["dt"])
    for b, h, w in itertools.product((1, 2, 3), (1, 2, 4), (1, 3)):
        n = b * h * w
        hue = torch.arange(n, dtype=dt) * 360 / max(1, n - 1)
        hue = hue.clamp(max=360.0)
        sat = (torch.arange(n, dtype=dt) * 7 % 5) / 4
        val = (torch.arange(n, dtype=dt) * 3 % 7) / 6
        x = torch.stack([c.reshape(b, h, w) for c in (hue, sat, val)], 1)
        for name, y in {"plain": x, "channels_last": x.to(memory_format=torch.channels_last), "transposed": x.transpose(2, 3).contiguous().transpose(2, 3), "expanded": x[:1].expand(b, 3, h, w)}.items():
            ok, got = t.attempt(f"hsv {tuple(x.shape)} {name}", hsv_to_rgb, y)
            t.state(b, h, w, name)
            t.trace()
            if ok:
                for i, j, k in itertools.product(range(b), range(h), range(w)):
                    want = rgb_ref(*[float(c) for c in y[i, :, j, k]])
                    t.check(max(abs(float(a) - c) for a, c in zip(got[i, :, j, k], want)) <= 4 * ulp(case["dt"]), f"{tuple(x.shape)} {name} pixel {(i, j, k)}")
        for pos in itertools.product(range(b), range(h), range(w)):
            for ch, bads in ((0, (-1e-3, -1.0, 360.5, 720.0)), (1, (-1e-3, 1.001)), (2, (-1e-3, 1.001, 255.0))):
                for bad in bads:
                    y = x.clone()
                    y[pos[0], ch, pos[1], pos[2]] = bad
                    t.must_raise(f"channel {ch} = {bad} at {pos} of {tuple(x.shape)}", ValueError, hsv_to_rgb, y)
                    t.step()
    z = torch.tensor([[[[0.0, 360.0]], [[0.7, 0.7]], [[0.9, 0.9]]]], dtype=dt)
    r = hsv_to_rgb(z)
    t.check(torch.allclose(r[..., 0], r[..., 1]), "hue 0 and 360 give different colours")
    for bad in ((3, 2, 2), (1, 3, 1, 2, 2), (3,), (1, 2, 2, 2), (1, 4, 2, 2), (3, 1, 2, 2)):
        t.must_raise(f"hsv of shape {bad}", ValueError, hsv_to_rgb, torch.zeros(bad, dtype=dt))


def color_ref(px, eps):
    """px: list of (y, x) flows of the whole tensor -> list of colours."""
    mags = [math.hypot(a, b) for a, b in px]
    lo, hi = min(mags), max(mags)
    out = []
    for (a, b), m in zip(px, mags):
        ang = math.degrees(math.atan2(a, b))
        out.append(rgb_ref(ang if ang >= 0 else ang + 360.0, 1.0, (m - lo) / (hi - lo + eps)))
    return out


def flow_check(t, flow, what, dt, eps=None):
    from neuralcompression.functional import optical_flow_to_color
    keep = flow.clone()
    args = () if eps is None else (eps,)
    ok, got = t.attempt(what, optical_flow_to_color, flow, *args)
    t.trace()
    if not ok:
        return
    b, _, h, w = flow.shape
    t.check(torch.equal(flow, keep), f"{what}: the flow was modified")
    t.check(tuple(got.shape) == (b, 3, h, w) and got.dtype == flow.dtype, f"{what}: result {tuple(got.shape)} {got.dtype}")
    px = flow.permute(0, 2, 3, 1).reshape(-1, 2).tolist()
    want = color_ref(px, 1e-5 if eps is None else eps)
    mags = [math.hypot(*p) for p in px]
    # the subtraction of the smallest magnitude loses precision when all magnitudes are nearly equal
    tol = ulp(dt) * (20 + 4 * max(mags) / (max(mags) - min(mags) + (1e-5 if eps is None else eps)))
    for p, g, r in zip(px, got.permute(0, 2, 3, 1).reshape(-1, 3).tolist(), want):
        t.check(max(abs(a - c) for a, c in zip(g, r)) <= tol, f"{what}: flow {p} coloured {g}, definition {r}")
        t.check(all(-tol <= c <= 1 + tol for c in g), f"{what}: colour {g} outside [0, 1]")
        t.step()


def run_flow(t, case):
    dt = getattr(torch, case["dt"])
    a = COMP[case["a"]]
    seconds = list(itertools.product(COMP, repeat=2)) if case["full"] else list(itertools.product(COMP[::2] + COMP[3:4], repeat=2))
    for b in COMP:
        f = torch.tensor([a, b], dtype=dt).reshape(1, 2, 1, 1)
        flow_check(t, f, f"single flow {(a, b)}", case["dt"])
        t.state(a, b)
        for c, d in seconds:
            f = torch.tensor([[a, c], [b, d]], dtype=dt).reshape(1, 2, 1, 2)
            flow_check(t, f, f"flow {(a, b)}, {(c, d)}", case["dt"])
            t.state(a, b, c, d)
        for eps in (1e-3, 1.0):
            f = torch.tensor([[a, 0.5], [b, -1.0]], dtype=dt).reshape(1, 2, 2, 1)
            flow_check(t, f, f"flow {(a, b)} eps={eps}", case["dt"], eps)


def run_flowshape(t, case):
    from neuralcompression.functional import optical_flow_to_color
    dt = getattr(torch, case["dt"])
    for b, h, w in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 4)):
        n = b * h * w
        fy = (torch.arange(n, dtype=dt) * 5 % 7 - 3) / 2
        fx = (torch.arange(n, dtype=dt) * 3 % 5 - 2) / 4
        f = torch.stack([fy.reshape(b, h, w), fx.reshape(b, h, w)], 1)
        for name, y in {"plain": f, "channels_last": f.to(memory_format=torch.channels_last), "permuted": f.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2), "zero": f * 0, "constant": f * 0 + 1.5}.items():
            flow_check(t, y, f"{name} flow {(b, 2, h, w)}", case["dt"])
            t.state(b, h, w, name)
        z = optical_flow_to_color(f * 0)
        t.check(bool((z == 0).all()), f"no motion at {(b, h, w)} is not black")
        # scaling a field by k leaves the colours (eps aside)
        if h * w * b > 1:
            t.check(torch.allclose(optical_flow_to_color(f, 0.0 if float((f ** 2).sum(1).max()) > float((f ** 2).sum(1).min()) else 1e-5), optical_flow_to_color(f * 4, 0.0 if float((f ** 2).sum(1).max()) > float((f ** 2).sum(1).min()) else 1e-5), atol=1e-4), f"colours of {(b, h, w)} depend on the scale of the flow")
    for bad in ((2, 3, 3), (1, 2, 3, 3, 1), (2,)):
        t.must_raise(f"flow of shape {bad}", ValueError, optical_flow_to_color, torch.zeros(bad, dtype=dt))


def run_scale(t, case):
    from neuralcompression.functional import image_to_255_scale
    dt = case["dt"]
    tdt = getattr(torch, dt)
    f = NP[dt]
    vals = []
    for v in range(case["lo"], case["hi"]):
        vals += near(f(v) / f(255), dt) + near((f(v) + f(0.5)) / f(255), dt) + [v / 255 + 0.25 / 255]
    vals = sorted({float(f(v)) for v in vals if 0.0 <= float(f(v)) <= 1.0})
    x = torch.tensor(vals, dtype=tdt).reshape(1, 1, 1, -1)
    keep = x.clone()
    res = {}
    for out in (None, torch.float32, torch.float64, torch.uint8, torch.int16, torch.int32, torch.int64):
        ok, y = t.attempt(f"conversion to {out}", image_to_255_scale, x, *(() if out is None else (out,)))
        if ok:
            t.check(y.dtype == (tdt if out is None else out) and y.shape == x.shape, f"conversion to {out}: {y.dtype} {tuple(y.shape)}")
            res[out] = [float(v) for v in y.flatten().tolist()]
    t.check(torch.equal(x, keep), "the image was modified")
    base = res.get(None)
    prev = -1.0
    for i, v in enumerate(vals):
        exact = Fraction(v) * 255
        lo = math.floor(exact + Fraction(1, 2) - Fraction(1, 2 ** (15 if dt == "float32" else 44)))
        hi = math.floor(exact + Fraction(1, 2) + Fraction(1, 2 ** (15 if dt == "float32" else 44)))
        for out, r in res.items():
            t.check(r[i] in (lo, hi), f"{v} -> {r[i]} as {out}, expected {lo if lo == hi else (lo, hi)}")
            if base:
                t.check(r[i] == base[i], f"{v} -> {r[i]} as {out} but {base[i]} unconverted")
        if base:
            t.check(base[i] >= prev, f"{v}: conversion is not monotone")
            prev = base[i]
        t.state(v)
        t.step()
    # a level divided by 255 comes back, so an 8-bit image survives
    lev = torch.arange(case["lo"], case["hi"])
    back = image_to_255_scale((lev.to(tdt) / 255).reshape(1, 1, 8, 8), torch.uint8)
    t.check(back.flatten().tolist() == lev.tolist(), f"8-bit levels {case['lo']}..{case['hi'] - 1} do not survive")
    t.trace()


def run_scaleshape(t, case):
    from neuralcompression.functional import image_to_255_scale
    tdt = getattr(torch, case["dt"])
    for b, c, h, w in itertools.product((1, 2), (1, 3), (1, 2), (1, 3)):
        n = b * c * h * w
        x = ((torch.arange(n) * 37 % 256).to(tdt) / 255).reshape(b, c, h, w)
        for name, y in {"plain": x, "channels_last": x.to(memory_format=torch.channels_last), "transposed": x.transpose(2, 3).contiguous().transpose(2, 3)}.items():
            ok, z = t.attempt(f"{tuple(x.shape)} {name}", image_to_255_scale, y, torch.uint8)
            if ok:
                t.check(z.flatten().tolist() == [i * 37 % 256 for i in range(n)], f"{tuple(x.shape)} {name}: wrong levels")
            t.state(b, c, h, w, name)
            t.trace()
        for i in range(n):
            for bad in (float(np.nextafter(NP[case["dt"]](1), NP[case["dt"]](2))), 1.5, 255.0, -1e-7, -1.0):
                y = x.clone().flatten()
                y[i] = bad
                t.must_raise(f"{bad} at {i} of {tuple(x.shape)}", ValueError, image_to_255_scale, y.reshape(b, c, h, w))
                t.must_raise(f"{bad} at {i} of {tuple(x.shape)} to uint8", ValueError, image_to_255_scale, y.reshape(b, c, h, w), torch.uint8)
                t.step()


def unnorm(g, size, align):
    return (g + 1) / 2 * (size - 1) if align else ((g + 1) * size - 1) / 2


def reflect(c, size, align):
    lo, hi = (0.0, size - 1.0) if align else (-0.5, size - 0.5)
    if hi == lo:
        return 0.0
    span = hi - lo
    c = abs(c - lo)
    k = math.floor(c / span)
    r = c - k * span
    return lo + r if k % 2 == 0 else hi - r


def coord(g, size, pad, align):
    c = unnorm(g, size, align)
    if pad == "reflection":
        c = reflect(c, size, align)
    if pad != "zeros":
        c = min(max(c, 0.0), size - 1.0)
    return c


def sample(img, y, x, mode, h, w):
    at = lambda i, j: img[i][j] if 0 <= i < h and 0 <= j < w else 0.0
    if mode == "nearest":
        return at(round(y), round(x))
    y0, x0 = math.floor(y), math.floor(x)
    dy, dx = y - y0, x - x0
    return (1 - dy) * ((1 - dx) * at(y0, x0) + dx * at(y0, x0 + 1)) + dy * ((1 - dx) * at(y0 + 1, x0) + dx * at(y0 + 1, x0 + 1))


def run_warp(t, case):
    from neuralcompression.functional import dense_image_warp
    dt = getattr(torch, case["dt"])
    h, w, pad = case["h"], case["w"], case["pad"]
    tol = 2e-5 if case["dt"] == "float32" else 1e-11
    b, c = 2, 2
    img = ((torch.arange(b * c * h * w) * 7 % 11).to(dt) - 3).reshape(b, c, h, w)
    shifts = [0.0, 0.3, -0.7, 1.1, -2.3] if case["full"] else [0.0, 0.3, -1.3]
    for fh, fw in itertools.product((1, 2, 3), repeat=2):
        for sy, sx in itertools.product(shifts, repeat=2):
            n = b * fh * fw
            ramp = (torch.arange(n, dtype=dt) * 0.37 % 0.9).reshape(b, fh, fw)
            for field in ("uniform", "varying"):
                fl = torch.stack([torch.full((b, fh, fw), sx, dtype=dt), torch.full((b, fh, fw), sy, dtype=dt)], -1)
                if field == "varying":
                    fl = fl + torch.stack([ramp, -ramp], -1)
                for mode, align in itertools.product(("bilinear", "nearest"), (False, True)):
                    keep = img.clone(), fl.clone()
                    what = f"warp image {h}x{w} flow {fh}x{fw} {field} shift {(sx, sy)} {mode} {pad} align={align}"
                    ok, got = t.attempt(what, dense_image_warp, img, fl, mode=mode, padding_mode=pad, align_corners=align)
                    t.state(fh, fw, sy, sx, field, mode, align)
                    t.trace()
                    if not ok:
                        continue
                    t.check(torch.equal(img, keep[0]) and torch.equal(fl, keep[1]), f"{what}: an input was modified")
                    t.check(tuple(got.shape) == (b, c, fh, fw), f"{what}: result {tuple(got.shape)}")
                    if tuple(got.shape) != (b, c, fh, fw):
                        continue
                    for i, y, x in itertools.product(range(b), range(fh), range(fw)):
                        gy = (-1 + 2 * y / (fh - 1) if fh > 1 else -1.0) + float(fl[i, y, x, 1])
                        gx = (-1 + 2 * x / (fw - 1) if fw > 1 else -1.0) + float(fl[i, y, x, 0])
                        py, px = coord(gy, h, pad, align), coord(gx, w, pad, align)
                        if mode == "nearest" and (abs(py - math.floor(py) - 0.5) < 1e-3 or abs(px - math.floor(px) - 0.5) < 1e-3):
                            continue  # a tie: either neighbour is right
                        for k in range(c):
                            want = sample(img[i, k].tolist(), py, px, mode, h, w)
                            t.check(abs(float(got[i, k, y, x]) - want) <= tol, f"{what}: pixel {(i, k, y, x)} = {float(got[i, k, y, x])}, sampling at {(py, px)} gives {want}")
                        t.step()
    for mode in ("bilinear", "nearest", "bicubic"):  # no motion
        ok, got = t.attempt(f"no motion {mode} {pad}", dense_image_warp, img, torch.zeros(b, h, w, 2, dtype=dt), mode=mode, padding_mode=pad, align_corners=True)
        if ok:
            t.check(torch.allclose(got, img, atol=tol), f"no motion {mode} {pad} {h}x{w}: the image changed")
        # moving by whole pixels
        for dy, dx in itertools.product(range(-h, h + 1), range(-w, w + 1)):
            if (h == 1 and dy) or (w == 1 and dx) or pad == "reflection" or mode == "nearest":
                continue
            fl = torch.zeros(b, h, w, 2, dtype=dt)
            fl[..., 1] = 2 * dy / (h - 1) if h > 1 else 0
            fl[..., 0] = 2 * dx / (w - 1) if w > 1 else 0
            ok, got = t.attempt(f"shift {(dy, dx)} {mode}", dense_image_warp, img, fl, mode=mode, padding_mode=pad, align_corners=True)
            if ok:
                for y, x in itertools.product(range(h), range(w)):
                    yy, xx = y + dy, x + dx
                    inside = 0 <= yy < h and 0 <= xx < w
                    if pad == "zeros":
                        want = img[:, :, yy, xx] if inside else torch.zeros(b, c, dtype=dt)
                    else:
                        want = img[:, :, min(max(yy, 0), h - 1), min(max(xx, 0), w - 1)]
                    if mode == "bicubic" and not (2 <= yy < h - 2 or inside):
                        continue
                    t.check(torch.allclose(got[:, :, y, x], want, atol=20 * tol), f"shift {(dy, dx)} {mode} {pad} {h}x{w}: pixel {(y, x)} is not the pixel moved there")
                t.state("shift", mode, dy, dx)
    default = dense_image_warp(img, torch.full((b, 2, 3, 2), 0.3, dtype=dt))
    t.check(torch.equal(default, dense_image_warp(img, torch.full((b, 2, 3, 2), 0.3, dtype=dt), "bilinear", "border", False)), "default warp is not bilinear, border, corners not aligned")


def run_warpreject(t, case):
    from neuralcompression.functional import dense_image_warp
    for a, b in itertools.product((torch.float32, torch.float64, torch.float16), repeat=2):
        if a != b:
            t.must_raise(f"image {a} with flow {b}", ValueError, dense_image_warp, torch.zeros(1, 1, 2, 2, dtype=a), torch.zeros(1, 2, 2, 2, dtype=b))
            t.state(str(a), str(b))
    for last in (1, 3, 4):
        t.must_raise(f"flow with {last} components", ValueError, dense_image_warp, torch.zeros(1, 1, 2, 2), torch.zeros(1, 2, 2, last))
        t.state(last)
    t.must_raise("flow of another batch", (ValueError, RuntimeError), dense_image_warp, torch.zeros(2, 1, 2, 2), torch.zeros(1, 2, 2, 2))


def run_case(t, case):
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
