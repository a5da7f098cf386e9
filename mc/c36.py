"""C36: data modules of the projects: every sample once, in order, with the documented transform, for every small data set and setting."""
import contextlib
import itertools
import os
import random
import sys
import types
import warnings
from pathlib import Path
import numpy as np
import torch
from PIL import Image
from . import core, fsenv

PID = "C36"
ASSUMPTIONS = ["the training framework (lightning, pytorch_lightning: not installed) is replaced by a stand-in; loaders run without worker processes",
               "video files are not decoded: the Kinetics slices check its transforms and collation on given clips",
               "random augmentations: all crop offsets and flips are enumerated by controlling the random source; resized crops are checked for shape, range and that every frame gets the same one"]


def bounds(tier):
    return ("UVG: all of 1..3 videos x 1..5 frames per sample x 1..3 samples per video x normalisation; Vimeo (both projects): all of 0..4 septuplets x batch sizes 1..3 x crop sizes x frames per group 1..7, every crop offset and flip; "
            "OpenImages: 1..4 images per split x batch sizes x validation batch sizes x transforms; Kinetics: 3 modes x 1..%d frames x subsampling x normalisation x batch 1..3" % (6 if tier == "quick" else 9))


def cases(tier):
    q = tier == "quick"
    for n in (1, 2, 3, 4, 5):
        yield {"kind": "uvg", "n": n}
    yield {"kind": "uvgbad"}
    for k in range(0, 5):
        yield {"kind": "vimeo", "k": k}
        yield {"kind": "dvc", "k": k}
    for br in (0, 1):
        yield {"kind": "vaug", "br": br}
    for k in (1, 2, 3, 4):
        yield {"kind": "oi", "k": k}
    yield {"kind": "oiaug"}
    for mode in ("train", "val", "test"):
        for norm in (0, 1):
            yield {"kind": "kin", "mode": mode, "norm": norm, "T": 6 if q else 9}
    yield {"kind": "collate"}
    yield {"kind": "kinload"}
    yield {"kind": "api"}


def vct(name):
    from . import fakelightning as fl
    if "torchvision.transforms.functional_tensor" not in sys.modules:
        import torchvision.transforms._functional_tensor as ft
        sys.modules["torchvision.transforms.functional_tensor"] = ft
    return fl.project("torch_vct", name)


def pixels(h, w, *code):
    """An image whose every pixel tells its position and its code."""
    y, x = np.mgrid[0:h, 0:w]
    a = np.zeros((h, w, 3), dtype=np.uint8)
    a[..., 0] = 20 * y + 3 * x + code[0]
    a[..., 1] = 90 + code[0] * 11 + y
    a[..., 2] = 150 + (code[1] if len(code) > 1 else 0) * 9 + x
    return a


def save(path, a):
    path.parent.mkdir(parents=True, exist_ok=True)
    Image.fromarray(a, "RGB").save(path)


def tens(a):
    return torch.from_numpy(np.asarray(a).copy()).permute(2, 0, 1).float() / 255


def near(a, b, tol=1e-6):
    return isinstance(a, torch.Tensor) and a.shape == b.shape and (a.numel() == 0 or float((a - b).abs().max()) <= tol)


# ---------------------------------------------------------------- UVG
def run_uvg(t, case):
    m = vct("datamodules.uvg")
    n = case["n"]
    for vids, per, norm in itertools.product((1, 2, 3), (1, 2, 3), (False, True)):
        with fsenv.scratch() as d:
            root = Path(d)
            frames = []
            for v in range(vids):
                for i in range(per * n):
                    a = pixels(3, 4, v, i % 10)
                    a[0, 0] = (v, i, 7)
                    save(root / f"video{v}" / f"f{i:03d}.png", a)
                    frames.append(a)
            dm = m.UVGDataModule(d, num_frames=n, normalize=norm, num_workers=0, pin_memory=False)
            what = f"uvg {vids} videos of {per}x{n} frames normalize={norm}"
            for perm in fsenv.perms(2)[:2] if per == 2 else [None]:
                with (fsenv.listing_order(d, perm) if perm is not None else contextlib.nullcontext()):
                    ok, got = t.attempt(what, lambda: list(dm.test_dataloader()))
                if not ok:
                    continue
                t.check(len(got) == vids * per, f"{what}: {len(got)} samples")
                for s, g in enumerate(got):
                    want = torch.stack([tens(a) for a in frames[s * n:(s + 1) * n]])[None]
                    if norm:
                        want = (want - 0.45) / 0.225
                    t.check(near(g.video_tensor, want), f"{what}: sample {s} is not frames {s * n}..{s * n + n - 1} in order")
                    t.check(tuple(g.shape) == (1, n, 3, 3, 4) and g.num_frames == n and g.batch_size == 1, f"{what}: sample {s} has shape {tuple(g.shape)}")
                    t.step()
                t.trace()
            t.state(what)


def run_uvgbad(t, case):
    m = vct("datamodules.uvg")
    for n in range(1, 301):
        if 300 % n:
            t.must_raise(f"uvg with {n} frames per sample", (AssertionError, ValueError), m.UVGDataModule, "x", num_frames=n)
        else:
            t.attempt(f"uvg with {n} frames per sample", m.UVGDataModule, "x", num_frames=n)
        t.state("n", n)
    for n, lens in itertools.product((2, 3), itertools.product((1, 2, 3, 4), repeat=2)):
        with fsenv.scratch() as d:
            for v, k in enumerate(lens):
                for i in range(k):
                    save(Path(d) / f"v{v}" / f"{i}.png", pixels(2, 2, v, i))
            dm = m.UVGDataModule(d, num_frames=n, num_workers=0, pin_memory=False)
            lab = [v for v, k in enumerate(lens) for _ in range(k)]
            groups = [lab[i:i + n] for i in range(0, len(lab), n)]
            mixed = any(len(set(g)) > 1 for g in groups)
            if mixed:
                t.must_raise(f"uvg videos of {lens} frames, {n} per sample: mixed sample", (AssertionError, ValueError), lambda: list(dm.test_dataloader()))
            else:
                ok, got = t.attempt(f"uvg videos of {lens} frames, {n} per sample", lambda: list(dm.test_dataloader()))
                t.check(not ok or [g.num_frames for g in got] == [len(g) for g in groups], f"uvg videos of {lens} frames, {n} per sample: samples of {[g.num_frames for g in got] if ok else None} frames")
            t.state("mix", n, lens)


# ---------------------------------------------------------------- Vimeo
def vimeo_tree(root, k, h=5, w=6):
    ref = {}
    for split in ("train", "test"):
        names = []
        for i in range(k):
            nm = f"0000{i + 1}/000{2 if split == 'test' else 1}"
            names.append(nm)
            for j in range(1, 8):
                a = pixels(h, w, i + (4 if split == "test" else 0), j)
                save(root / "sequences" / nm / f"im{j}.png", a)
                ref[(split, i, j)] = tens(a)
        (root / f"sep_{split}list.txt").write_text("".join(n + "\n" for n in names))
    return ref


def center(x, c):
    h, w = x.shape[-2:]
    top, left = int(round((h - c[0]) / 2.0)), int(round((w - c[1]) / 2.0))
    return x[..., top:top + c[0], left:left + c[1]]


def batches(t, what, loader):
    ok, out = t.attempt(what, lambda: list(loader))
    return out if ok else None


def reshuffled(t, what, loader, ident):
    """Training order depends on the random seed: eight seeds do not all give one order."""
    orders = set()
    for s in range(8):
        torch.manual_seed(s)
        random.seed(s)
        ok, o = t.attempt(what, lambda: tuple(ident(v) for g in loader() for v in getattr(g, "video_tensor", g)))
        if not ok:
            return
        orders.add(o)
        t.step()
    t.check(len(orders) > 1, f"{what}: eight seeds give the same training order {orders}")


def coherent(t, what, vid, j0):
    """All frames of one clip went through the same crop: code differences are constant."""
    d = vid[:, 2] - vid[:1, 2]
    for j in range(vid.shape[0]):
        t.check(float((d[j] - d[j].mean()).abs().max()) < 2e-3 and abs(float(d[j].mean()) - 9 * j / 255) < 2e-3, f"{what}: frame {j + j0} was cropped differently from frame {j0}")
        t.check(float((vid[j, 1] - vid[0, 1]).abs().max()) < 2e-3, f"{what}: frame {j + j0} was cropped differently from frame {j0} (rows)")


def run_vimeo(t, case):
    m = vct("datamodules.vimeo")
    k = case["k"]
    with fsenv.scratch() as d:
        ref = vimeo_tree(Path(d), k)
        for tb, vb, c in itertools.product((1, 2, 3), (1, 2, 3), (4, (4, 4), (3, 6), (5, 6))):
            cs = (c, c) if isinstance(c, int) else c
            what = f"vimeo {k} septuplets batch {tb}/{vb} crop {c}"
            dm = m.VimeoDataModule(d, tb, vb, c, num_workers=0)
            ok, _ = t.attempt(what, dm.setup)
            if not ok:
                continue
            got = batches(t, what + " val", dm.val_dataloader())
            if got is not None:
                t.check([g.batch_size for g in got] == [vb] * (k // vb) + ([k % vb] if k % vb else []), f"{what}: validation batches of {[g.batch_size for g in got]}")
                vids = [v for g in got for v in g.video_tensor]
                t.check(len(vids) == k and all(near(v, center(torch.stack([ref[("test", i, j)] for j in range(1, 8)]), cs)) for i, v in enumerate(vids)), f"{what}: validation clips are not the centre crops of the test list in order")
            if k == 0:
                continue
            torch.manual_seed(tb)
            random.seed(vb)
            got = batches(t, what + " train", dm.train_dataloader())
            if got is not None:
                t.check([g.batch_size for g in got] == [tb] * (k // tb) + ([k % tb] if k % tb else []), f"{what}: training batches of {[g.batch_size for g in got]}")
                vids = [v for g in got for v in g.video_tensor]
                t.check(all(tuple(v.shape) == (7, 3) + tuple(cs) for v in vids), f"{what}: training clip shapes {[tuple(v.shape) for v in vids]}")
                # the second channel identifies the septuplet (11 per septuplet, rows add 0..4)
                who = sorted(int((float(v[0, 1].min()) * 255 - 90 + 1e-3) // 11) for v in vids)
                t.check(who == list(range(k)), f"{what}: one epoch visits septuplets {who}")
                for v in vids:
                    t.check(float(v.min()) >= 0 and float(v.max()) <= 1, f"{what}: values out of range")
                    coherent(t, what, v, 1)
            t.state(k, tb, vb, str(c))
            t.trace()
        if k == 4:
            for tb in (1, 2, 3):
                dm = m.VimeoDataModule(d, tb, 1, (4, 4), num_workers=0)
                dm.setup()
                reshuffled(t, f"vimeo {k} septuplets batch {tb}", dm.train_dataloader, lambda v: int((float(v[0, 1].min()) * 255 - 90 + 1e-3) // 11))


@contextlib.contextmanager
def controlled(branch, ints, flip):
    """Control the choice between augmentations, the crop offsets and the flip."""
    ri, rr, ch = torch.randint, torch.rand, random.choices
    q = list(ints)

    def randint(*a, **k):
        lo, hi = (0, a[0]) if len([v for v in a if isinstance(v, int)]) == 1 else (a[0], a[1])
        v = q.pop(0) if q else 0
        return torch.tensor([lo + v % max(1, hi - lo)])
    random.choices = lambda pop, *a, **k: [list(pop)[branch]]
    torch.randint, torch.rand = randint, lambda *a, **k: torch.tensor([0.1 if flip else 0.9])
    try:
        yield
    finally:
        torch.randint, torch.rand, random.choices = ri, rr, ch


def run_vaug(t, case):
    """Every crop offset and flip of the training augmentation; a resized crop keeps the frames aligned."""
    m = vct("datamodules.vimeo")
    with fsenv.scratch() as d:
        ref = vimeo_tree(Path(d), 1)
        full = torch.stack([ref[("train", 0, j)] for j in range(1, 8)])
        for c in ((4, 4), (5, 6), (3, 5), (1, 1)):
            dm = m.VimeoDataModule(d, 1, 1, c, num_workers=0)
            dm.setup()
            seen = set()
            for i, j, flip in itertools.product(range(5 - c[0] + 1), range(6 - c[1] + 1), (0, 1)):
                with controlled(case["br"], [i, j], flip):
                    ok, v = t.attempt(f"vimeo crop {c} at {i},{j} flip {flip}", lambda: dm.train_dataset[0])
                if not ok:
                    continue
                t.check(tuple(v.shape) == (7, 3) + c and float(v.min()) >= 0 and float(v.max()) <= 1, f"vimeo crop {c}: shape {tuple(v.shape)} or range wrong")
                coherent(t, f"vimeo crop {c} at {i},{j} flip {flip}", v, 1)
                hit = [(a, b, f) for a in range(5 - c[0] + 1) for b in range(6 - c[1] + 1) for f in (0, 1)
                       if near(v, torch.flip(full[..., a:a + c[0], b:b + c[1]], [-1]) if f else full[..., a:a + c[0], b:b + c[1]], 1e-5)]
                if case["br"] == 0:
                    t.check(bool(hit), f"vimeo crop {c} at {i},{j} flip {flip}: the clip is no window of the video")
                    seen.update(hit)
                t.state(c, i, j, flip, case["br"])
                t.trace()
            if case["br"] == 0:
                n = (5 - c[0] + 1) * (6 - c[1] + 1)
                t.check(len({s[:2] for s in seen}) == n, f"vimeo crop {c}: only {len({s[:2] for s in seen})} of {n} windows can be drawn")
        if case["br"] == 0:
            # clips smaller than the crop are continued by their edge
            for c in ((7, 4), (4, 9), (8, 8)):
                dm = m.VimeoDataModule(d, 1, 1, c, num_workers=0)
                dm.setup()
                big = torch.nn.functional.pad(full, (9, 9, 9, 9), mode="replicate")
                wins = [big[..., a:a + c[0], b:b + c[1]] for a in range(big.shape[-2] - c[0] + 1) for b in range(big.shape[-1] - c[1] + 1)]
                for i, j, flip in itertools.product(range(max(5, 2 * c[0] - 5) - c[0] + 1), range(max(6, 2 * c[1] - 6) - c[1] + 1), (0, 1)):
                    with controlled(0, [i, j], flip):
                        ok, v = t.attempt(f"vimeo crop {c} at {i},{j} flip {flip}", lambda: dm.train_dataset[0])
                    t.check(not ok or (tuple(v.shape) == (7, 3) + c and any(near(v, k, 1e-5) or near(v.flip(-1), k, 1e-5) for k in wins)), f"vimeo crop {c} at {i},{j} flip {flip}: no window of the continued clip")
                    t.state("small", c, i, j, flip)


def run_dvc(t, case):
    from . import fakelightning as fl
    m = fl.project("deep_video_compression", "data_module")
    k = case["k"]
    with fsenv.scratch() as d:
        ref = vimeo_tree(Path(d), k)
        for fpg in range(1, 8):
            for tb, vb, c in ((1, 2, 4), (2, 1, (3, 4)), (3, 3, [5, 6])):
                cs = (c, c) if isinstance(c, int) else tuple(c)
                what = f"dvc {k} septuplets {fpg} frames batch {tb}/{vb} size {c}"
                dm = m.Vimeo90kSeptupletLightning(d, fpg, tb, vb, c)
                ok, _ = t.attempt(what, dm.setup)
                if not ok:
                    continue
                # which frames a shorter group holds is the data set's business (C21); here: same frames, centre-cropped, in order
                got = batches(t, what + " val", dm.val_dataloader())
                if got is not None:
                    t.check([len(g) for g in got] == [vb] * (k // vb) + ([k % vb] if k % vb else []), f"{what}: validation batches of {[len(g) for g in got]}")
                    vids = [v for g in got for v in g]
                    for i, v in enumerate(vids):
                        js = [j for f in v for j in range(1, 8) if near(f, center(ref[("test", i, j)], cs))]
                        t.check(v.shape[0] == fpg and len(js) == fpg and js == list(range(js[0], js[0] + fpg)) if js else False, f"{what}: validation clip {i} shows frames {js}")
                    t.check(len(vids) == k, f"{what}: {len(vids)} validation clips")
                if k:
                    torch.manual_seed(fpg)
                    got = batches(t, what + " train", dm.train_dataloader())
                    if got is not None:
                        t.check([len(g) for g in got] == [tb] * (k // tb) + ([k % tb] if k % tb else []), f"{what}: training batches of {[len(g) for g in got]}")
                        who = []
                        for g in got:
                            for v in g:
                                who += [i for i in range(k) if any(near(v[0], center(ref[("train", i, j)], cs)) for j in range(1, 8))]
                        t.check(sorted(who) == list(range(k)), f"{what}: one epoch visits septuplets {sorted(who)}")
                t.state(what)
                t.trace()
        if k == 4:
            for tb in (1, 2, 3):
                dm = m.Vimeo90kSeptupletLightning(d, 1, tb, 1, 4)
                dm.setup()
                reshuffled(t, f"dvc {k} septuplets batch {tb}", dm.train_dataloader, lambda v: int((float(v[0, 1].min()) * 255 - 90 + 1e-3) // 11))
        if k == 0:
            for bad in (-1, 0, 8, 1.5, None):
                t.must_raise(f"dvc frames_per_group={bad}", ValueError, m.Vimeo90kSeptupletLightning, d, bad)


# ---------------------------------------------------------------- OpenImages
def oi_tree(root, k):
    ref = {}
    for split, folder in (("train", "train"), ("val", "validation"), ("test", "test")):
        for i in range(k):
            a = np.zeros((6, 8, 3), dtype=np.uint8)
            a[:] = (40 * i + 20, {"train": 30, "val": 130, "test": 230}[split], 90)
            p = root / folder / f"a{i}.jpg"
            p.parent.mkdir(parents=True, exist_ok=True)
            Image.fromarray(a, "RGB").save(p, quality=100, subsampling=0)
            ref[(split, i)] = a[0, 0].astype(int)
        (root / f"list-{folder}-files.txt").write_text("".join(f"{folder}/a{i}.jpg\n" if False else f"a{i}.jpg\n" for i in range(k)))
    return ref


def who_oi(x, ref, split):
    p = (x.reshape(3, -1).mean(1) * 255)
    return [i for (s, i), v in ref.items() if s == split and float((p - torch.tensor(v.astype(float)).float()).abs().max()) < 12]


def run_oi(t, case):
    from . import fakelightning as fl
    from torchvision.transforms import ToTensor
    m = fl.illm("open_images_datamodule")
    k = case["k"]
    with fsenv.scratch() as d:
        ref = oi_tree(Path(d), k)
        for b, vb, tr in itertools.product((1, 2, 3), (None, 1, 2, 3), ("default", "list", "both", "train", "val")):
            what = f"openimages {k} images batch {b}/{vb} transforms {tr}"
            kw = dict(default=dict(image_size=4), list=dict(image_size=[4, 5]), both=dict(train_transform=ToTensor(), val_transform=ToTensor()), train=dict(train_transform=ToTensor(), image_size=[4, 4]),
                      val=dict(val_transform=ToTensor(), image_size=[4, 4]))[tr]
            ok, dm = t.attempt(what, m.OpenImagesDataModule, d, b, val_batch_size=vb, pin_memory=False, **kw)
            if not ok or not t.attempt(what, dm.setup)[0]:
                continue
            eff = b if vb is None else vb
            size = {"default": (4, 4), "list": (4, 5), "train": (4, 4), "val": (4, 4), "both": (6, 8)}[tr]
            vsize = (6, 8) if tr in ("both", "val") else size
            tsize = (6, 8) if tr in ("both", "train") else size
            for name, get in (("val", dm.val_dataloader), ("test", dm.test_dataloader)):
                ok, ld = t.attempt(f"{what} {name} loader", get)
                got = batches(t, f"{what} {name}", ld) if ok else None
                if got is not None:
                    t.check([len(g) for g in got] == [eff] * (k // eff) + ([k % eff] if k % eff else []), f"{what} {name}: batches of {[len(g) for g in got]}")
                    imgs = [x for g in got for x in g]
                    t.check([who_oi(x, ref, "val") for x in imgs] == [[i] for i in range(k)], f"{what} {name}: images {[who_oi(x, ref, 'val') for x in imgs]} instead of the validation list in order")
                    t.check(all(tuple(x.shape) == (3,) + vsize for x in imgs), f"{what} {name}: image shapes {[tuple(x.shape) for x in imgs]}")
            torch.manual_seed(b)
            ok, ld = t.attempt(f"{what} train loader", dm.train_dataloader)
            got = batches(t, f"{what} train", ld) if ok else None
            if got is not None:
                t.check([len(g) for g in got] == [b] * (k // b) + ([k % b] if k % b else []), f"{what} train: batches of {[len(g) for g in got]}")
                imgs = [x for g in got for x in g]
                t.check(sorted(who_oi(x, ref, "train") for x in imgs) == [[i] for i in range(k)], f"{what} train: one epoch visits {[who_oi(x, ref, 'train') for x in imgs]}")
                t.check(all(tuple(x.shape) == (3,) + tsize and float(x.min()) >= 0 and float(x.max()) <= 1 for x in imgs), f"{what} train: image shapes {[tuple(x.shape) for x in imgs]}")
            t.state(what)
            t.trace()
        if k == 4:
            for b in (1, 2, 3):
                dm = m.OpenImagesDataModule(d, b, pin_memory=False, train_transform=ToTensor(), val_transform=ToTensor())
                dm.setup()
                reshuffled(t, f"openimages {k} images batch {b}", dm.train_dataloader, lambda x: tuple(who_oi(x, ref, "train")))
        if k == 1:
            for kw in (dict(), dict(train_transform=ToTensor()), dict(val_transform=ToTensor())):
                t.must_raise(f"openimages without size, {list(kw)}", ValueError, m.OpenImagesDataModule, d, 1, **kw)


def run_oiaug(t, case):
    """Validation transform resizes and centres; the training crop can draw every window and both orientations."""
    from . import fakelightning as fl
    m = fl.illm("default_transforms")
    a = pixels(5, 6, 1, 2)
    im = Image.fromarray(a, "RGB")
    x = tens(a)
    for c in ((4, 4), (5, 6), (3, 2), 4):
        cs = (c, c) if isinstance(c, int) else c
        seen = set()
        for i, j, flip in itertools.product(range(5 - cs[0] + 1), range(6 - cs[1] + 1), (0, 1)):
            with controlled(0, [i, j], flip):
                ok, v = t.attempt(f"train transform {c}", m.default_train_transform(c), im)
            if ok:
                hit = [(p, q, f) for p in range(5 - cs[0] + 1) for q in range(6 - cs[1] + 1) for f in (0, 1) if near(v, torch.flip(x[:, p:p + cs[0], q:q + cs[1]], [-1]) if f else x[:, p:p + cs[0], q:q + cs[1]])]
                t.check(bool(hit), f"train transform {c}: the crop is no window of the image")
                seen.update(hit)
            with controlled(1, [i, j], flip):
                ok, v = t.attempt(f"train transform {c} resized", m.default_train_transform(c), im)
                t.check(not ok or (tuple(v.shape) == (3,) + tuple(cs) and float(v.min()) >= 0 and float(v.max()) <= 1), f"train transform {c} resized: {tuple(v.shape) if ok else None}")
            t.state(str(c), i, j, flip)
        t.check(len(seen) == (5 - cs[0] + 1) * (6 - cs[1] + 1) * 2, f"train transform {c}: only {len(seen)} crops and flips can be drawn")
    # images smaller than the crop are continued by reflection: every sample is a window of the continued image
    for h, w in itertools.product((1, 2, 3, 5), (1, 3, 6)):
        small = pixels(h, w, 1, 2)
        c = 4
        big = tens(np.pad(small, ((c, c), (c, c), (0, 0)), "reflect"))
        wins = [big[:, p:p + c, q:q + c] for p in range(big.shape[1] - c + 1) for q in range(big.shape[2] - c + 1)]
        for i, j, flip in itertools.product(range(max(h, 2 * c - h) - c + 1), range(max(w, 2 * c - w) - c + 1), (0, 1)):
            with controlled(0, [i, j], flip):
                ok, v = t.attempt(f"train transform of a {h}x{w} image", m.default_train_transform(c), Image.fromarray(small, "RGB"))
            if ok:
                t.check(tuple(v.shape) == (3, c, c) and any(near(v, k) or near(v.flip(-1), k) for k in wins), f"train transform of a {h}x{w} image: no window of the reflected image")
            t.state("small", h, w, i, j, flip)
    for h, w, c in itertools.product((4, 5, 6, 9), (4, 6, 7), (4, (4, 4), (4, 6), (3, 5))):
        a = pixels(h, w, 0, 1) // 2
        ok, v = t.attempt(f"val transform {(h, w)} {c}", m.default_val_transform(c), Image.fromarray(a, "RGB"))
        cs = (c, c) if isinstance(c, int) else c
        if ok:
            t.check(tuple(v.shape) == (3,) + tuple(cs), f"val transform {(h, w)} to {c}: shape {tuple(v.shape)}")
            if (h, w) == tuple(cs) or (isinstance(c, int) and min(h, w) == c):
                t.check(near(v, center(tens(a), cs)), f"val transform {(h, w)} to {c}: not the centre of the image")
            v2 = m.default_val_transform(c)(Image.fromarray(a, "RGB"))
            t.check(torch.equal(v, v2), f"val transform {(h, w)} to {c} is not deterministic")
        t.state("val", h, w, str(c))


# ---------------------------------------------------------------- Kinetics
def clip_cthw(T, h, w):
    fr = []
    y, x = np.mgrid[0:h, 0:w]
    for i in range(T):
        a = np.zeros((3, h, w), dtype=np.float32)
        a[0] = (y + 0 * x) % 200 + i
        a[1] = (x + 0 * y) % 200 + i
        a[2] = 9 * i
        fr.append(a)
    return torch.from_numpy(np.stack(fr, 1))


def run_kin(t, case):
    m = vct("datamodules.kinetics")
    mode, norm = case["mode"], bool(case["norm"])
    for T, sub, hw in itertools.product(range(1, case["T"] + 1), (None, 1, 2, 3, 5, [2, 3], [4]), ((256, 256), (258, 260), (200, 300))):
        if mode == "train" and hw == (200, 300) and T > 2:
            continue
        dm = m.KineticsDataModule("x", video_num_subsampled=sub, normalize=norm, num_workers=0, pin_memory=False)
        x = clip_cthw(T, *hw)
        what = f"kinetics {mode} {T} frames of {hw} subsample {sub} normalize={norm}"
        ok, tr = t.attempt(what, dm._video_transform, mode)
        if not ok:
            continue
        torch.manual_seed(T)
        random.seed(T)
        ok, out = t.attempt(what, tr, {"video": x.clone(), "audio": torch.zeros(3), "label": 4})
        if not ok:
            continue
        t.check(set(out) == {"video", "label"} and out["label"] == 4, f"{what}: keys {sorted(out)}")
        v = out["video"]
        if norm:
            v = v * 0.225 + 0.45
        v = v * 255
        ns = {sub} if isinstance(sub, int) else ({T} if sub is None else (set(sub) if mode == "train" else {max(sub)}))
        if not t.check(v.dim() == 4 and v.shape[0] == 3 and v.shape[1] in ns, f"{what}: clip of shape {tuple(v.shape)}"):
            continue
        n = v.shape[1]
        idx = list(range(T)) if sub is None else [int(i) for i in torch.clamp(torch.linspace(0, T - 1, n), 0, T - 1).long()]
        codes = [round(float(v[2, i].max()) / 9) for i in range(n)]
        if not (mode == "val" and hw == (200, 300)):
            t.check(codes == idx, f"{what}: shows frames {codes} instead of {idx}")
        want = x[:, idx]
        if mode == "test":
            t.check(near(v, want, 1e-2), f"{what}: test clips must not be augmented")
        elif mode == "val":
            t.check(tuple(v.shape[-2:]) == (256, 256), f"{what}: crop {tuple(v.shape)}")
            if hw[0] >= 256 and hw[1] >= 256:
                t.check(near(v, center(want, (256, 256)), 1e-2), f"{what}: not the centre crop")
        else:
            t.check(tuple(v.shape[-2:]) == (256, 256), f"{what}: crop {tuple(v.shape)}")
            for i in range(1, n):
                t.check(float(((v[:2, i] - v[:2, 0]) - (idx[i] - idx[0])).abs().max()) < 0.05, f"{what}: frame {i} was cropped differently from frame 0")
        t.state(what)
        t.trace()


class Clips(torch.utils.data.IterableDataset):
    """What the video library would deliver: clips that carry their number, through the transform."""

    def __init__(self, got, kw):
        self.transform = kw.get("transform")
        got.append(kw)
        self.n = 5

    def __iter__(self):
        for i in range(self.n):
            d = {"video": clip_cthw(3, 256, 256) * 0 + 10 * i, "label": i, "video_index": i}
            yield self.transform(d) if self.transform else d


def clips_of(sampler, dur):
    """The clips a sampler cuts from a video."""
    from fractions import Fraction
    out, last = [], 0.0
    for _ in range(12):
        c = sampler(last, Fraction(dur), {})
        out.append((Fraction(c.clip_start_sec), Fraction(c.clip_end_sec), bool(c.is_last_clip)))
        last = c.clip_end_sec
        if c.is_last_clip:
            break
    return out


def run_kinload(t, case):
    """Each loader asks for its own split with the configured clips and delivers every clip once, in order, in batches of the configured size."""
    from pytorchvideo.data.clip_sampling import make_clip_sampler
    m = vct("datamodules.kinetics")
    old = m.pytorchvideo.data.Kinetics
    got = []
    m.pytorchvideo.data.Kinetics = lambda *a, **k: Clips(got, {**({"data_path": a[0]} if a else {}), **({"clip_sampler": a[1]} if len(a) > 1 else {}), **k})
    try:
        for bt, bv, dur, kind in itertools.product((1, 2, 4), (1, 3), (1, 2), ("uniform", "random")):
            what = f"kinetics batches {bt}/{bv} clips of {dur} s {kind}"
            dm = m.KineticsDataModule("root", train_batch_size=bt, val_batch_size=bv, clip_duration=dur, train_clip_sampler=kind, num_workers=0, pin_memory=False)
            del got[:]
            ok, _ = t.attempt(what, dm.setup)
            if not ok:
                return
            for split, size, mk in (("train", bt, dm.train_dataloader), ("val", bv, dm.val_dataloader), ("test", 1, dm.test_dataloader), ("test", 2, lambda: dm.test_dataloader(2))):
                ok, dl = t.attempt(f"{what} {split}", mk)
                if not ok:
                    continue
                kw = [g for g in got if os.path.normpath(g["data_path"]) == os.path.join("root", split)]
                if not t.check(kw, f"{what}: no {split} data at root/{split}, asked for {[g['data_path'] for g in got]}"):
                    continue
                kw = kw[-1]
                t.check(kw.get("decode_audio") is False, f"{what} {split}: audio is decoded")
                want = make_clip_sampler(kind if split == "train" else "uniform", dur)
                if t.check(kw.get("clip_sampler") is not None, f"{what} {split}: no clip sampler"):
                    if split != "test" or kind == "uniform":
                        t.check(type(kw["clip_sampler"]) is type(want), f"{what} {split}: {type(kw['clip_sampler']).__name__}")
                        if "Random" not in type(want).__name__:
                            t.check(clips_of(kw["clip_sampler"], 7) == clips_of(want, 7), f"{what} {split}: other clips than {kind} ones of {dur} s")
                    a, b, _ = clips_of(kw["clip_sampler"], 7)[0]
                    t.check(abs(float(b - a) - dur) < 1e-6 and 0 <= a and b <= 7, f"{what} {split}: clips of another duration")
                ok, bs = t.attempt(f"{what} {split} batches", list, dl)
                if ok:
                    t.check([b.video_tensor.shape[0] for b in bs] == [size] * (5 // size) + ([5 % size] if 5 % size else []), f"{what} {split}: batches of {[b.video_tensor.shape[0] for b in bs]}")
                    ids = [round(float(v) * 25.5) for b in bs for v in b.video_tensor.mean(dim=(1, 2, 3, 4))]
                    t.check(ids == list(range(5)), f"{what} {split}: clips {ids} instead of 0..4 in order")
                t.state(what, split, size)
                t.step()
            t.trace()
    finally:
        m.pytorchvideo.data.Kinetics = old


def run_collate(t, case):
    k, u, vi = vct("datamodules.kinetics"), vct("datamodules.uvg"), vct("datamodules.vimeo")
    dm = k.KineticsDataModule("x", num_workers=0)
    for b, T in itertools.product((1, 2, 3), (1, 2, 3)):
        clips = [torch.arange(3 * T * 2 * 3).reshape(3, T, 2, 3).float() + 1000 * i for i in range(b)]
        want = torch.stack([c.permute(1, 0, 2, 3) for c in clips])
        for name, f in (("val", dm._custom_collate_val), ("train", dm._custom_collate_train)):
            ok, g = t.attempt(f"collate {name} {b}x{T}", f, [{"video": c.clone(), "label": i} for i, c in enumerate(clips)])
            t.check(not ok or near(g.video_tensor, want), f"collate {name} of {b} clips of {T} frames mixes them up")
        ok, g = t.attempt(f"vimeo collate {b}x{T}", vi.VimeoDataModule("x")._custom_collate, [c.clone() for c in want])
        t.check(not ok or near(g.video_tensor, want), f"vimeo collate of {b} clips mixes them up")
        t.state("same", b, T)
    for lens in itertools.product((1, 2, 3), repeat=3):
        clips = [torch.arange(3 * n * 2 * 2).reshape(3, n, 2, 2).float() + 1 + 1000 * i for i, n in enumerate(lens)]
        ok, g = t.attempt(f"padded collate {lens}", dm._custom_collate_train, [{"video": c.clone(), "label": i} for i, c in enumerate(clips)], pad=True)
        if ok:
            T = max(lens)
            want = torch.stack([torch.cat([c.permute(1, 0, 2, 3), torch.zeros(T - c.shape[1], 3, 2, 2)]) for c in clips])
            t.check(near(g.video_tensor, want), f"padded collate of clips of {lens} frames: clip mixed up or padded wrongly")
        t.state("pad", lens)
        t.trace()


def run_api(t, case):
    a = vct("datamodules.video_data_api")
    for cls in (a.VideoDataset, a.KineticsDataset, a.VimeoDataset):
        for s in itertools.product((1, 2, 3), (1, 2), (1, 3, 4), (2, 3), (4, 5)):
            x = torch.arange(float(np.prod(s))).reshape(s)
            v = cls(video_tensor=x)
            t.check(tuple(v.shape) == s and v.num_frames == s[1] and v.batch_size == s[0] and tuple(v.spatial_shape) == s[3:], f"{cls.__name__} {s}: sizes {tuple(v.shape)} {v.num_frames} {v.batch_size} {v.spatial_shape}")
            if s[2] == 3:
                t.attempt(f"validate {s}", v.validate_shape)
            else:
                t.must_raise(f"validate {s}", ValueError, v.validate_shape)
            t.state(cls.__name__, s)
        for r in (1, 2, 3, 4, 6):
            t.must_raise(f"validate rank {r}", ValueError, cls(video_tensor=torch.zeros((3,) * r)).validate_shape)
        for b, T, h, w in itertools.product((1, 2), (1, 3), (4, 8), (4, 6)):
            v = cls.make_random_video(b, T, h, w)
            t.check(tuple(v.shape) == (b, T, 3, h, w), f"random video {tuple(v.shape)}")
    for s in itertools.product((1, 2, 3), (1, 2, 4), (1, 3), (2, 3), (1, 4)):
        x = torch.arange(float(np.prod(s))).reshape(s)
        sc = a.Scenes(x)
        ok, it = t.attempt(f"scenes {s}", lambda: list(sc.get_scenes_iter()))
        t.check(not ok or (len(it) == s[1] == sc.num_scenes and all(torch.equal(y, x[:, i]) for i, y in enumerate(it))), f"scenes of {s}: not every latent once in order")
        t.check(sc.batch_size == s[0] and tuple(sc.spatial_shape) == s[3:] and tuple(sc.shape) == s, f"scenes {s}: sizes")
        t.must_raise(f"scenes of {s} in double", ValueError, lambda: list(a.Scenes(x.double()).get_scenes_iter()))
        t.must_raise(f"scenes of rank 4", ValueError, lambda: list(a.Scenes(x[0]).get_scenes_iter()))
        t.state("scenes", s)


def run_case(t, case):
    torch.set_num_threads(1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
