"""C21: datasets on all small directory trees x splits x options x directory-listing orders."""
import itertools
import os
import sys
from pathlib import Path
import numpy as np
import torch
from PIL import Image
from . import core, fsenv

PID = "C21"
ASSUMPTIONS = ["images are identified by their size and colour; JPEG content by its size"]


def bounds(tier):
    n = 5 if tier == "quick" else 7
    return f"DIV2K/CLIC: all subsets of {n} file names x decoy sets x all listing permutations; Vimeo: all ordered lists of <= 3 septuplets x frames_per_group 1..7 x modes x transforms x split/folder list; OpenImages: all lists over <= {4 if tier == 'quick' else 5} names x line formats x splits, all {len(INVALID)} excluded names; Kodak: all 24 indices x listing orders"


INVALID = """0a866d6fd1ea9317 0df79dea97961a10 0efa17ee62d7caf9 14098132e2032aaf 193edd6c8ef39251 1b564e7e54361fc2 24b77bff6bfd736c 39a876a07f18f837 3e260ed1bfd6509e 42a6df3ac3bf2d33 4ce068dcc2ae3cc9 4ddbede0f1bdc602 50eb15613b100675 5ef177f1391765d3 61efc69916e8fa1e 62a1bbca8a844225 62be906e5077bffa 646605f070b9883f 67b1dfe383f92dcf 6b1efb7bf49e27be 73497cedb79d23a4 73f886b2ab2f5bd9 79bcae5f044a69fb 80d19062a39df158 83c0499d3e8fdb06 8604fd077594d226 88161ed23f3379b4 895ef7a64e2858c1 91d66b5ddcb4f5a3 93fd5f0899065d78 965b4dccff47fa5d add170ca187afcd7 b6474a1a69bbbe49 b840cb6cca32d756 bcd2dfa3750ea055 bebf5b2470a3955c c18b0a385e0d8257 c5ad20115f79cc66 d1fdbbb705bb6016 d66352405f0385e3 da1267b1196c8e79 ea15e23587edc562 eb8fab01d113dc3b ec1a5e86a7d570c8 ec40941f60fbc594 ecd25d7e90027c89 fb6574ec2e4e4bb8 33bbb7e2c767c773 9f860289e93d11fc c977b4fd166e908b c2ffdc701a70e9a1 0248001275c71dc8 0364f5c6f964e1bc 0b76aafb249fc5b7 0c616f7947875acc 16f199c310a1b7ac 235f7b87aa67461e 23e5990f0ed037a7 24d76ef27ba41f38 2e58f4a0d31e9be1 2e7f9bc07e7bd4d8 2ff06b2f1ba0cc51 31968a4b02d9981b 36a83a554ef21da2 39af00cf7013519c 3dfceab39d674168 439e232d7531027e 48212be4d45c5c1a 59847832eb83aaa1 5cbd57fd38a45852 61db1e0c8174b3c3 659c55b26b92c5ab 6a5bdb01a0f99891 6bba1f25a1ee68e8 723a41acf8804460 752cf54040dc80d7 7996ed8f1f35ce83 8075443714f28729 8b1f16626a5bbc82 8d7efba30eeca417 97e9a3774468eb35 a7adff7aede82670 adcd441c940a8832 ae811292e322abe1 b146377ed3af77ec b8543f9c563bad6a b9511a25bf6aa6d9 b9e6642fc707d78f bf8844bdf5fcded4 c100f8bda2d56a6d c57eb29e74376b15 cbcdc984e6f0d41d cf81b04e3baf23d8 d45776312fb97ff6 d5af6277007b6001 daa2fa027bd35189 de2ea1f167b03dab dfc42b77003e55d3 e752e43deb95c51c f0508277b718aa55""".split()
NAMES = ["0801.png", "9.png", "a.png", "A.png", "a.b.png", "10.png", "0810.png"]


def cases(tier):
    n = 5 if tier == "quick" else 7
    for r in range(0, n + 1):
        for sub in itertools.combinations(NAMES[:n], r):
            yield {"kind": "flat", "names": list(sub)}
    for fpg in range(1, 8):
        yield {"kind": "vimeo", "fpg": fpg, "full": tier != "quick"}
    yield {"kind": "vimeo_invalid"}
    for sp in ("train", "val", "test"):
        yield {"kind": "oi", "split": sp, "n": 4 if tier == "quick" else 5}
        yield {"kind": "oi_invalid", "split": sp}
    yield {"kind": "kodak", "full": tier != "quick"}


def put(path, ident, jpg=False):
    """An image only ``ident`` has: its width encodes it, and its colour too."""
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    a = np.zeros((2, 3 + ident, 3), dtype=np.uint8)
    a[..., 0], a[..., 1], a[..., 2] = ident % 251, (7 * ident) % 251, 200
    Image.fromarray(a, "RGB").save(path)


def ident(img):
    """Identity of what a dataset returned (PIL image or tensor)."""
    if isinstance(img, torch.Tensor):
        return img.shape[-1] - 3
    assert img.mode == "RGB", img.mode
    i = img.size[0] - 3
    return i


def exact(img):
    i = ident(img)
    if isinstance(img, torch.Tensor):
        return bool((img[0] * 255).round().eq(i % 251).all() and (img[1] * 255).round().eq((7 * i) % 251).all())
    a = np.asarray(img)
    return bool((a[..., 0] == i % 251).all() and (a[..., 1] == (7 * i) % 251).all())


class Log:
    """A transform that records each application and tags its result."""

    def __init__(self, f):
        self.f, self.calls = f, []

    def __call__(self, x):
        self.calls.append(x)
        return self.f(x)


def sweep(t, name, ds, want, jpg=False):
    """Index space of a map-style dataset: returns the identities by index."""
    ok, n = t.attempt(f"{name} len", len, ds)
    if not ok:
        return None
    t.check(n == len(want), f"{name}: {n} items, the split has {len(want)}")
    got = []
    for i in range(n):
        ok, v = t.attempt(f"{name}[{i}]", ds.__getitem__, i)
        if not ok:
            return None
        t.state(name, i)
        got.append(ident(v))
        t.check(jpg or exact(v), f"{name}[{i}]: pixel values of image {ident(v)} are wrong")
    t.check(sorted(got) == sorted(want), f"{name}: indices give images {got}, the split has {want}")
    t.check([ident(v) for v in ds] == got, f"{name}: iterating differs from indexing")
    t.check([ident(ds[i]) for i in reversed(range(n))] == got[::-1], f"{name}: access order changes the items")
    t.check([ident(ds[i - n]) for i in range(n)] == got, f"{name}: negative indices")
    t.must_raise(f"{name}[{n}]", IndexError, ds.__getitem__, n)
    t.trace()
    return got


def run_flat(t, case):
    from neuralcompression.data import CLIC2020Image, DIV2KDataset
    from torchvision.transforms import ToTensor
    names = case["names"]
    decoysets = [[], ["notes.txt", "0801.jpg", "sub/0801.png", "x.png.bak"]]
    for which in ("div2k", "train", "val", "test"):
        for decoys in decoysets:
            with fsenv.scratch() as d:
                root = Path(d)
                base = root / "DIV2K_valid_HR" if which == "div2k" else root / "clic2020" / which
                base.mkdir(parents=True)
                for i, nm in enumerate(names):
                    put(base / nm, i)
                for i, nm in enumerate(decoys):
                    p = base / nm
                    p.parent.mkdir(parents=True, exist_ok=True)
                    if nm.endswith(("png", "jpg")):
                        put(p, 40 + i)
                    else:
                        p.write_text("x")
                # other splits and stray files next to the split
                for i, o in enumerate(("train", "val", "test")):
                    if o != which:
                        put(root / "clic2020" / o / "9.png", 50 + i)
                put(root / "DIV2K_train_HR" / "9.png", 60)
                put(root / "9.png", 61)

                def mk(r=root, **kw):
                    return DIV2KDataset(r, **kw) if which == "div2k" else CLIC2020Image(r, split=which, **kw)
                first = None
                nent = len(names) + len({x.split("/")[0] for x in decoys})
                orders = fsenv.perms(nent) if nent <= 4 else fsenv.perms(4) + ["rev", "sorted"]
                for perm in orders:
                    with fsenv.listing_order(root, perm):
                        ok, ds = t.attempt(f"{which} {names}", mk)
                        if not ok:
                            return
                        nm = f"{which} {names} decoys={bool(decoys)} listing {perm}"
                        if first is None:
                            first = sweep(t, nm, ds, list(range(len(names))))
                        else:
                            got = [ident(ds[i]) for i in range(len(ds))]
                            t.step()
                            t.trace()
                            t.state(nm)
                            t.check(got == first, f"{nm}: order {got} instead of {first}")
                t.check(first is None or [ident(v) for v in mk(str(root))] == first, f"{which}: a string root behaves differently")
                log = Log(ToTensor())
                ds = mk(transform=log)
                for i in range(len(ds)):
                    log.calls.clear()
                    v = ds[i]
                    t.check(isinstance(v, torch.Tensor) and len(log.calls) == 1 and ident(log.calls[0]) == ident(v) == first[i] and exact(v), f"{which}: transform not applied exactly once to item {i}")
                for bad in ("valid", "", "Train", "dev"):
                    f = (lambda: DIV2KDataset(root, split=bad)) if which == "div2k" else (lambda: CLIC2020Image(root, split=bad))
                    t.must_raise(f"{which} split={bad!r}", ValueError, f)
    t.sample(case)


FOLD = ["00001/0001", "00001/0002", "00010/0001"]


def run_vimeo(t, case):
    from neuralcompression.data import Vimeo90kSeptuplet
    from torchvision.transforms import ToTensor
    fpg = case["fpg"]
    with fsenv.scratch() as d:
        root = Path(d)
        for fi, f in enumerate(FOLD):
            for j in range(1, 8):
                put(root / "sequences" / f / f"im{j}.png", 0)  # replaced below
                a = np.zeros((4, 5, 3), dtype=np.uint8)
                a[..., 0], a[..., 1], a[..., 2] = 10 * fi + j, 50 + fi, 100 + j
                Image.fromarray(a, "RGB").save(root / "sequences" / f / f"im{j}.png")

        def vid(x):
            """(folder, frame) of a frame."""
            if isinstance(x, torch.Tensor):
                p = (x.reshape(3, -1)[:, 0] * 255).round().int().tolist()
            else:
                p = list(np.asarray(x).reshape(-1, 3)[0])
            return int(p[1]) - 50, int(p[2]) - 100

        lists = [list(p) for r in range(0, 4) for p in itertools.permutations(range(3), r)]
        seps = ["\n", "\r\n"] if case["full"] else ["\n"]
        for lst in lists:
            for how in ("split-train", "split-test", "split-nonl", "split-blank", "list", "tuple"):
                kw = {}
                if how.startswith("split"):
                    sp = "test" if how == "split-test" else "train"
                    body = "".join(FOLD[i] + "\n" for i in lst)
                    if how == "split-nonl":
                        body = body.rstrip("\n")
                    if how == "split-blank":
                        body = body + "\n"
                    (root / f"sep_{sp}list.txt").write_text(body)
                    other = "train" if sp == "test" else "test"
                    (root / f"sep_{other}list.txt").write_text("00099/0009\n")
                    kw["split"] = sp
                else:
                    fl = ["sequences/" + FOLD[i] for i in lst]
                    kw["folder_list"] = fl if how == "list" else tuple(fl)
                for video in (False, True):
                    for pt in (None, "tt"):
                        for tt in (None, "x2"):
                            name = f"vimeo {lst} {how} video={video} fpg={fpg} pil={pt} tensor={tt}"
                            if tt and pt is None and not video:
                                continue  # a tensor transform needs a tensor
                            plog, tlog = Log(ToTensor()), Log(lambda v: v * 2)
                            ok, ds = t.attempt(name, Vimeo90kSeptuplet, root if how != "list" else str(root), as_video=video, frames_per_group=fpg, pil_transform=plog if pt else None, tensor_transform=tlog if tt else None, **kw)
                            if not ok:
                                return
                            n = len(lst) if video else len(lst) * fpg
                            t.check(len(ds) == n, f"{name}: length {len(ds)}, expected {n}")
                            got = []
                            for i in list(range(n)) + [-1] * (n > 0):
                                plog.calls.clear()
                                tlog.calls.clear()
                                ok, v = t.attempt(f"{name}[{i}]", ds.__getitem__, i)
                                if not ok:
                                    return
                                t.state(name, i)
                                i = i % n
                                frames = [(lst[i], j) for j in range(1, fpg + 1)] if video else [(lst[i // fpg], i % fpg + 1)]
                                if isinstance(v, torch.Tensor):
                                    t.check(tuple(v.shape) == ((fpg, 3, 4, 5) if video else (3, 4, 5)), f"{name}[{i}]: shape {tuple(v.shape)}")
                                    u = v / 2 if tt else v
                                    fr = [vid(x) for x in (u if video else [u])]
                                    t.check(bool((u.reshape(len(frames), 3, -1) == u.reshape(len(frames), 3, -1)[..., :1]).all()), f"{name}: pixels differ")
                                else:
                                    t.check(pt is None and not video and isinstance(v, Image.Image), f"{name}[{i}]: returned {type(v)}")
                                    fr = [vid(v)]
                                t.check(isinstance(v, torch.Tensor) or not (video or pt), f"{name}[{i}]: not a tensor")
                                t.check(fr == frames, f"{name}[{i}]: frames {fr}, expected {frames}")
                                t.check([vid(c) for c in plog.calls] == (frames if pt else []), f"{name}[{i}]: image transform applied to {[vid(c) for c in plog.calls]}")
                                t.check(len(tlog.calls) == (1 if tt else 0), f"{name}[{i}]: tensor transform applied {len(tlog.calls)} times")
                            t.must_raise(f"{name}[{n}]", IndexError, ds.__getitem__, n)
                            t.trace()
                    if fpg == 7:
                        ok, ds = t.attempt(f"vimeo {lst} {how} video={video} default group", Vimeo90kSeptuplet, root, as_video=video, **kw)
                        t.check(not ok or len(ds) == (len(lst) if video else 7 * len(lst)), f"vimeo {lst} {how}: the default group is not the septuplet")
                        t.check(not (ok and video and lst) or tuple(ds[0].shape) == (7, 3, 4, 5), f"vimeo {lst} {how}: the default clip is not the septuplet")
    t.sample(case)


def run_vimeo_invalid(t, case):
    from neuralcompression.data import Vimeo90kSeptuplet
    with fsenv.scratch() as d:
        root = Path(d)
        put(root / "sequences/00001/0001/im1.png", 1)
        for s in ("train", "test"):
            (root / f"sep_{s}list.txt").write_text("00001/0001\n")
        for v in (False, True):
            for fpg in (-1, 0, 8, 100, 1.5):
                t.must_raise(f"vimeo fpg={fpg}", ValueError, Vimeo90kSeptuplet, root, v, fpg, "train")
            t.must_raise("neither split nor list", ValueError, Vimeo90kSeptuplet, root, v)
            t.must_raise("split and list", ValueError, Vimeo90kSeptuplet, root, v, 7, "train", ["x"])
            t.must_raise("split and empty list", ValueError, Vimeo90kSeptuplet, root, v, 7, "train", [])
            for sp in ("val", "", "Train"):
                t.must_raise(f"split {sp}", ValueError, Vimeo90kSeptuplet, root, v, 7, sp)
            for fpg in range(1, 8):
                ds = Vimeo90kSeptuplet(root, v, 1, "train", pil_transform=lambda im: im)
                t.must_raise("pil_transform that returns no tensor", RuntimeError, ds.__getitem__, 0)
        t.state("vimeo-invalid")


def run_oi(t, case):
    from neuralcompression.data import OpenImagesV6
    from torchvision.transforms import ToTensor
    sp, n = case["split"], case["n"]
    folder = {"train": "train", "val": "validation", "test": "test"}[sp]
    names = ["000a", "ff.01", "ff", "Z9", "0"][:n]
    with fsenv.scratch() as d:
        root = Path(d)
        for f in ("train", "validation", "test"):
            for i, nm in enumerate(names + ["unlisted"]):
                put(root / f / (nm + ".jpg"), i + (0 if f == folder else 50))
            if f != folder:
                (root / f"list-{f}-files.txt").write_text("unlisted.jpg\n")
        ref = {}
        for r in range(0, n + 1):
            for order in itertools.permutations(range(n), r):
                for fmt in ("jpg", "bare", "crlf", "nonl"):
                    if fmt == "bare" and 1 in order:
                        continue  # a dotted name needs its extension
                    for lf in ("default", "path", "str"):
                        lines = [names[i] + ("" if fmt == "bare" else ".jpg") for i in order]
                        nl = "\r\n" if fmt == "crlf" else "\n"
                        body = nl.join(lines) + ("" if fmt == "nonl" or not lines else nl)
                        p = root / f"list-{folder}-files.txt" if lf == "default" else root / "custom.list"
                        with open(p, "w", newline="") as f:
                            f.write(body)
                        kw = {} if lf == "default" else {"image_list_file": p if lf == "path" else str(p)}
                        name = f"openimages {sp} {lines} {fmt} {lf}"
                        ok, ds = t.attempt(name, OpenImagesV6, root if lf != "str" else str(root), sp, **kw)
                        if not ok:
                            return
                        key = (frozenset(order))
                        if key not in ref:
                            ref[key] = sweep(t, name, ds, sorted(order), jpg=True)
                        else:
                            got = [ident(ds[i]) for i in range(len(ds))]
                            t.step()
                            t.state(name)
                            t.trace()
                            t.check(got == ref[key], f"{name}: order {got}, with another list order {ref[key]}")
                log = Log(ToTensor())
                ds = OpenImagesV6(root, sp, image_list_file=root / "custom.list", transform=log)
                for i in range(len(ds)):
                    log.calls.clear()
                    v = ds[i]
                    t.check(isinstance(v, torch.Tensor) and len(log.calls) == 1 and ident(v) == ident(log.calls[0]) == ref[frozenset(order)][i], f"openimages {sp}: transform on item {i}")
        for bad in ("validation", "dev", ""):
            t.must_raise(f"openimages split {bad!r}", ValueError, OpenImagesV6, root, bad)
    t.sample(case)


def run_oi_invalid(t, case):
    """Every excluded name is left out of train and of nothing else."""
    from neuralcompression.data import OpenImagesV6
    sp = case["split"]
    folder = {"train": "train", "val": "validation", "test": "test"}[sp]
    with fsenv.scratch() as d:
        root = Path(d)
        good = ["0000000000000001", "ffffffffffffffff", "0a866d6fd1ea931"]
        for i, nm in enumerate(good):
            put(root / folder / (nm + ".jpg"), i)
        for i, bad in enumerate(INVALID):
            put(root / folder / (bad + ".jpg"), 10 + i)
        for i, bad in enumerate(INVALID):
            (root / f"list-{folder}-files.txt").write_text("".join(x + ".jpg\n" for x in [good[0], bad, good[1], good[2]]))
            ok, ds = t.attempt(f"openimages {sp} {bad}", OpenImagesV6, root, sp)
            if not ok:
                return
            want = [0, 1, 2] + ([] if sp == "train" else [10 + i])
            t.state(sp, bad)
            t.check(sorted(ident(v) for v in ds) == want and len(ds) == len(want), f"openimages {sp}: excluded name {bad} handled wrongly: {[ident(v) for v in ds]}")
            t.trace()


def run_kodak(t, case):
    from neuralcompression.data import Kodak
    from torchvision.transforms import ToTensor
    with fsenv.scratch() as d:
        root = Path(d) / "kodak"
        for i in range(1, 25):
            put(root / f"kodim{i:02}.png", i)
        for x in ("kodim00.png", "kodim25.png", "kodim1.png", "notes.png"):
            put(root / x, 60)
        for perm in ["sorted", "rev"] + (fsenv.perms(4) if case["full"] else fsenv.perms(3)):
            with fsenv.listing_order(root, perm):
                ok, ds = t.attempt(f"kodak {perm}", Kodak, root, check_hash=False)
                if not ok:
                    return
                got = sweep(t, f"kodak listing {perm}", ds, list(range(1, 25)))
                t.check(got == list(range(1, 25)), f"kodak: index i is not image i+1: {got}")
        log = Log(ToTensor())
        ds = Kodak(str(root), check_hash=False, transform=log)
        for i in range(24):
            log.calls.clear()
            v = ds[i]
            t.check(isinstance(v, torch.Tensor) and ident(v) == i + 1 and exact(v) and len(log.calls) == 1, f"kodak transform on item {i}")
        t.must_raise("kodak without a directory", FileNotFoundError, Kodak, root / "missing", check_hash=False)
        t.must_raise("kodak with wrong content", RuntimeError, Kodak, root)


def run_case(t, case):
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
