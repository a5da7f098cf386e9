"""C04: pad_image_to_factor, complete enumeration against an index reference."""
import sys

import numpy as np
import torch

from . import core

PID = "C04"
ASSUMPTIONS = ["reflect padding needs pad < size and circular padding pad <= size (torch restriction); smaller images are outside the property for those modes"]
MODES = {"reflect": "reflect", "replicate": "edge", "constant": "constant", "circular": "wrap"}


def bounds(tier):
    n = 40 if tier == "quick" else 72
    return f"all H,W in [1,{n}], factors 1..20 and 32,48,64 (+ sizes up to 1100 on strips), 4 modes, 2 dtypes, 3 batch/channel shapes, 3 layouts"


def cases(tier):
    n = 40 if tier == "quick" else 72
    for f in range(1, 21):
        yield {"kind": "grid", "f": f, "lo": 1, "hi": n}
    for f in (32, 48, 64, 100):
        for lo in (f // 2 + 1, f, 2 * f, 3 * f):
            yield {"kind": "grid", "f": f, "lo": lo, "hi": lo + (f // 2 if tier == "quick" else f)}
    yield {"kind": "strips"}
    yield {"kind": "layout"}


def img(b, c, h, w, dtype=torch.float32):
    return torch.arange(b * c * h * w, dtype=dtype).reshape(b, c, h, w)


def one(t, x, f, mode, what, default=False):
    from neuralcompression.functional import pad_image_to_factor
    h, w = x.shape[-2:]
    ph, pw = -h % f, -w % f
    if mode == "reflect" and (ph >= h or pw >= w):
        return
    if mode == "circular" and (ph > h or pw > w):
        return
    before = x.clone()
    if default:
        ok, r = t.attempt(f"pad {what}", pad_image_to_factor, x, f)
    else:
        ok, r = t.attempt(f"pad {what}", pad_image_to_factor, x, f, mode)
    if not ok:
        return
    y, size = r
    want = x.numpy()
    if ph or pw:
        want = np.pad(want, ((0, 0), (0, 0), (0, ph), (0, pw)), mode=MODES[mode])
    t.check(tuple(size) == (h, w), f"reported size {tuple(size)} for {what}")
    t.check(tuple(y.shape) == want.shape, f"padded shape {tuple(y.shape)} for {what}, expected {want.shape}")
    if tuple(y.shape) == want.shape:
        t.check(np.array_equal(y.numpy(), want), f"padded content wrong for {what}")
    t.check(y.dtype == x.dtype, f"dtype changed for {what}")
    t.check(torch.equal(x, before), f"input modified for {what}")


def run_case(t, case):
    k = case["kind"]
    if k == "grid":
        f = case["f"]
        for h in range(case["lo"], case["hi"] + 1):
            for w in range(case["lo"], case["hi"] + 1):
                x = img(1, 1, h, w)
                one(t, x, f, "reflect", f"{h}x{w} factor {f} (default mode)", default=True)
                if f <= 20 and (h + w) % 3 == 0 or (h % f == 0) or (w % f == 0):
                    for mode in MODES:
                        one(t, x, f, mode, f"{h}x{w} factor {f} mode {mode}")
                t.state(f, h, w)
                t.trace()
            if len(t.problems) > 3:
                return
        t.sample({"factor": f, "last": [h, w]})
    elif k == "strips":
        for f in (7, 16, 64, 128):
            for h in (f, f + 1, 2 * f - 1):
                for w in list(range(1000, 1100, 3)) + [1024, 1088, 2048, 2047]:
                    one(t, img(1, 1, h, w), f, "reflect", f"{h}x{w} factor {f}", default=True)
                    one(t, img(1, 1, w, h), f, "reflect", f"{w}x{h} factor {f}", default=True)
                    t.state(f, h, w)
                    t.trace(2)
    else:
        for b in (1, 2, 3):
            for c in (1, 2, 3, 5):
                for dtype in (torch.float32, torch.float64):
                    for h in range(1, 14):
                        for w in range(1, 14):
                            for f in (1, 2, 3, 4, 5, 8):
                                x = img(b, c, h, w, dtype)
                                one(t, x, f, "reflect", f"{b}x{c}x{h}x{w} {dtype} factor {f}")
                                if f in (4, 5) and c == 3:
                                    for mode in MODES:
                                        one(t, x, f, mode, f"{b}x{c}x{h}x{w} {dtype} factor {f} {mode}")
                                    xt = x.permute(0, 1, 3, 2).contiguous().permute(0, 1, 3, 2)
                                    one(t, xt, f, "reflect", f"transposed layout {b}x{c}x{h}x{w} factor {f}")
                                    xl = x.contiguous(memory_format=torch.channels_last)
                                    one(t, xl, f, "reflect", f"channels_last {b}x{c}x{h}x{w} factor {f}")
                                t.state(b, c, h, w, f, str(dtype))
                                t.trace()


if __name__ == "__main__":
    core.main(sys.modules[__name__])
