"""C13: patch FID update, all sizes x patch sizes x metric subsets with recording metrics."""
import itertools
import sys
from collections import Counter
import torch
from . import core

PID = "C13"
ASSUMPTIONS = ["three channel images in [0,1]; the metrics are recorders, and the repository's own FID/KID classes with stand-in feature networks in one slice"]


def bounds(tier):
    p = 6 if tier == "quick" else 9
    return f"patch sizes 1..{p}, all heights/widths up to 3.5 patches, batch 1..3, all 7 metric subsets, position coded images; rejected sizes below one patch"


class Rec:
    def __init__(self):
        self.calls = []

    def update(self, imgs, real):
        self.calls.append((imgs.clone(), bool(real)))


def img(b, h, w, s):
    i = torch.arange(b * 3 * h * w).view(b, 3, h, w)
    return ((i * 37 + s * 91 + i // 7) % 257).double().div(256).float()


def to255(x):
    return (x.double() * 255).round().clamp(0, 255).to(torch.uint8)


def grid(x, p, off):
    x = x[:, :, off:, off:]
    out = []
    for b in range(x.shape[0]):
        for a in range(x.shape[2] // p):
            for c in range(x.shape[3] // p):
                out.append(x[b, :, a * p:(a + 1) * p, c * p:(c + 1) * p])
    return out


def key(x):
    return x.contiguous().numpy().tobytes()


def cases(tier):
    for p in range(1, (6 if tier == "quick" else 9) + 1):
        for h in range(p, int(3.5 * p) + 2):
            yield {"kind": "grid", "p": p, "h": h}
    yield {"kind": "reject"}
    yield {"kind": "real"}
    yield {"kind": "default"}


def run(x, y, sub, p):
    from neuralcompression.metrics import update_patch_fid
    ms = {n: Rec() for n in sub}
    n = update_patch_fid(x, y, patch_size=p, **ms)
    return n, ms


NAMES = ["fid_metric", "fid_swav_metric", "kid_metric"]


def verify(t, x, y, p, n, ms, tag):
    off = p // 2
    h, w = x.shape[2:]
    shifted = h >= 1.5 * p and w >= 1.5 * p
    for side, src in ((True, x), (False, y)):
        u = to255(src)
        want = grid(u, p, 0) + (grid(u, p, off) if shifted else [])
        for name, m in ms.items():
            got = [im for imgs, r in m.calls if r == side for im in imgs]
            t.check(all(i.dtype == torch.uint8 and tuple(i.shape) == (3, p, p) for i in got), f"{tag} {name}: patches are not 8-bit {p}x{p} images")
            t.check(Counter(map(key, got)) == Counter(map(key, want)), f"{tag} {name}: {'real' if side else 'generated'} patches are not each grid patch exactly once ({len(got)} passed, {len(want)} expected)")
            t.check(n == len(want), f"{tag}: returned {n}, {len(want)} patches per side")


def run_case(t, case):
    if case["kind"] == "grid":
        p, h = case["p"], case["h"]
        for w in range(p, int(3.5 * p) + 2):
            for b in (1, 2, 3):
                x, y = img(b, h, w, 0), img(b, h, w, 1)
                keep = x.clone(), y.clone()
                subs = [s for r in (1, 2, 3) for s in itertools.combinations(NAMES, r)] if b == 2 else [tuple(NAMES)]
                for sub in subs:
                    tag = f"{b}x{h}x{w} patch {p} metrics {sub}"
                    ok, r = t.attempt(tag, run, x, y, sub, p)
                    if not ok:
                        return
                    verify(t, x, y, p, r[0], r[1], tag)
                    t.state(tag)
                t.check(torch.equal(x, keep[0]) and torch.equal(y, keep[1]), f"{b}x{h}x{w}: images modified")
    elif case["kind"] == "reject":
        from neuralcompression.metrics import update_patch_fid
        t.must_raise("no metric", ValueError, update_patch_fid, img(1, 8, 8, 0), img(1, 8, 8, 1), patch_size=4)
        t.must_raise("no metric, default patch", ValueError, update_patch_fid, img(1, 8, 8, 0), img(1, 8, 8, 1))
        for h, w in ((3, 8), (8, 3), (3, 3)):
            r = Rec()
            try:
                n = update_patch_fid(img(1, h, w, 0), img(1, h, w, 1), fid_metric=r, patch_size=4)
            except Exception:  # noqa: BLE001
                n = 0
            t.check(n == 0 and not any(len(c[0]) for c in r.calls), f"{h}x{w} smaller than a patch but {n} patches reported")
        t.state("reject")
    elif case["kind"] == "default":
        # default patch size is 256 and all-equal values survive the conversion
        for h, w, want in ((256, 256, 1), (383, 600, 2), (384, 384, 2), (384, 640, 4), (512, 383, 2)):
            x = torch.full((1, 3, h, w), 0.5)
            ms = {n: Rec() for n in NAMES}
            from neuralcompression.metrics import update_patch_fid
            n = update_patch_fid(x, x * 0.2, **ms)
            t.step()
            t.check(n == want, f"default patch size, {h}x{w}: {n} patches, expected {want}")
            for m in ms.values():
                t.check({(tuple(i.shape[1:]), int(i.max()), int(i.min()), r) for i, r in m.calls} == {((3, 256, 256), 128, 128, True), ((3, 256, 256), 26, 26, False)}, f"default patches {h}x{w}")
            t.state("default", h, w)
    else:
        from . import c12
        for h, w, p in ((8, 12, 4), (6, 6, 4), (9, 7, 3)):
            x, y = img(2, h, w, 0), img(2, h, w, 1)
            ms = dict(fid_metric=c12.make("fid"), fid_swav_metric=c12.make("swav"), kid_metric=c12.make("kid", subsets=1, subset_size=2))
            from neuralcompression.metrics import update_patch_fid
            n = update_patch_fid(x, y, patch_size=p, **ms)
            for name, m in ms.items():
                a, b = torch.cat(list(m.real_features)), torch.cat(list(m.fake_features))
                t.check(len(a) == len(b) == n, f"{name}: {len(a)}/{len(b)} features for {n} patches")
            off = p // 2
            want = c12.Backbone()(torch.stack(grid(to255(x), p, 0) + (grid(to255(x), p, off) if min(h, w) >= 1.5 * p else [])))
            got = torch.cat(list(ms["fid_metric"].real_features))
            s = lambda v: sorted(tuple(round(float(q), 5) for q in r) for r in v)
            t.check(s(want) == s(got), "features of the real patches")
            t.state("real", h, w, p)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
