"""C05: VCT patching is a bijection / exact window extraction."""
import sys
import numpy as np
import torch
from . import core

PID = "C05"
ASSUMPTIONS = ["the patcher only moves elements, so a tensor whose elements are all distinct decides each shape"]
NPMODE = {"reflect": "reflect", "replicate": "edge", "constant": "constant"}


def cases(tier):
    hi = 10 if tier == "quick" else 18
    strides = [1, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5, 6, 8]
    for stride in strides:
        for mode in NPMODE:
            for h in range(1, hi + 1):
                yield dict(stride=stride, mode=mode, h=h, hi=hi, thorough=tier == "thorough")


def bounds(tier):
    return ("h,w in 1..%d, strides, patch sizes stride-2..stride+6, batch 1-3, channels 1-3, 3 padding modes, "
            "crop/no crop, both channel layouts, float32/float64" % (10 if tier == "quick" else 18))


def enc(b, c, h, w, dtype):
    n = b * c * h * w
    return (torch.arange(1, n + 1, dtype=dtype)).reshape(b, c, h, w)


def ref_padded(x, stride, ps, mode):
    b, c, h, w = x.shape
    m = (ps - stride) // 2
    hp, wp = -(-h // stride) * stride, -(-w // stride) * stride
    pt, pb, pl, pr = m, hp - h + m, m, wp - w + m
    legal = True
    if mode == "reflect":
        legal = max(pt, pb) < h and max(pl, pr) < w
    if not legal:
        return None, hp // stride, wp // stride
    return (np.pad(x.numpy(), ((0, 0), (0, 0), (pt, pb), (pl, pr)), mode=NPMODE[mode]),
            hp // stride, wp // stride)


def run_case(t, case):
    from projects.torch_vct.neural.patcher import Patcher
    stride, mode, h = case["stride"], case["mode"], case["h"]
    p = Patcher(stride, mode)
    shapes = [(1, 1), (2, 3), (3, 1), (1, 2)] if case["thorough"] else [(1, 1), (2, 3)]
    for w in range(1, case["hi"] + 1):
        for b, c in shapes:
            for dtype in ((torch.float32, torch.float64) if (b, c) == (2, 3) else (torch.float32,)):
                x = enc(b, c, h, w, dtype)
                x0 = x.clone()
                for ps in range(max(1, stride - 2), stride + 7):
                    tag = f"stride={stride} mode={mode} x={tuple(x.shape)} patch={ps}"
                    if ps < stride or (ps - stride) % 2:
                        t.must_raise(tag + " invalid patch size", (ValueError, AssertionError, RuntimeError), p, x, ps)
                        continue
                    ref, nh, nw = ref_padded(x, stride, ps, mode)
                    if ref is None:
                        # torch cannot reflect that far: refusing is right, but never wrong data
                        try:
                            p(x, ps)
                        except Exception:
                            t.step()
                            continue
                        t.fail(tag + ": accepted although reflection padding is impossible")
                        continue
                    ok, out = t.attempt(tag, p, x, ps)
                    if not ok:
                        continue
                    tens, (gh, gw) = out
                    t.state(stride, mode, h, w, b, c, ps)
                    t.check((gh, gw) == (nh, nw), f"{tag}: reported patches {(gh, gw)} != {(nh, nw)}")
                    want = np.stack([
                        ref[bi, :, i * stride:i * stride + ps, j * stride:j * stride + ps]
                        .reshape(c, ps * ps).T
                        for bi in range(b) for i in range(nh) for j in range(nw)])
                    good = tuple(tens.shape) == want.shape and tens.dtype == dtype \
                        and np.abs(tens.numpy() - want).max() < 1e-2
                    t.check(good, f"{tag}: patch contents differ from the raster-order windows")
                    t.check(torch.equal(x, x0), f"{tag}: input modified")
                    if ps == stride and good:
                        t.check(np.array_equal(tens.numpy(), want), f"{tag}: non-overlapping patches not exact")
                        for cl in (True, False):
                            src = tens if cl else tens.permute(0, 2, 1)
                            keep = src.clone()
                            for arg in (type(out)(src, out.num_patches), (src, (nh, nw))):
                                ok, full = t.attempt(tag + " unpatch", p.unpatch, arg, None, cl)
                                if ok:
                                    t.check(tuple(full.shape) == ref.shape and np.array_equal(full.numpy(), ref),
                                            f"{tag}: unpatch(channels_last={cl}) is not the padded tensor")
                                ok, back = t.attempt(tag + " unpatch crop", p.unpatch, arg, (h, w), cl)
                                if ok:
                                    t.check(back.shape == x.shape and torch.equal(back, x),
                                            f"{tag}: unpatch+crop(channels_last={cl}) does not return the input")
                                    t.trace()
                            t.check(torch.equal(src, keep), f"{tag}: unpatch modified its input")
                    if ps != stride and b == 1 and tens.shape[1] == ps * ps:
                        t.must_raise(tag + " unpatch of overlapping patches", (AssertionError, ValueError, RuntimeError),
                                     p.unpatch, out, None, True)
    t.sample({"stride": stride, "h": h, "mode": mode})


if __name__ == "__main__":
    core.main(sys.modules[__name__])
