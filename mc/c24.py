"""C24: CLIC video iteration over all small video sets x clip samplers x listing orders x iteration histories x workers."""
import itertools
import math
import sys
from fractions import Fraction
from pathlib import Path
import numpy as np
import torch
from PIL import Image
from . import core, fsenv

PID = "C24"
ASSUMPTIONS = ["clip boundaries are those of pytorchvideo's clip samplers (a fresh sampler of the same configuration is the reference)", "30 frames per second, frame file names zero-padded as documented"]
VIDS = ["Animation_1080P-01b3", "Sports_720P-6bb7", "Vlog_2160P-0a2f"]
LENS = [1, 2, 3, 5]


def samplers(tier):
    out = [("uniform", (k,)) for k in (1, 2, 3, 4)]
    out += [("uniform", (k, s)) for k in (2, 3) for s in range(1, k)]
    out += [("uniform", (k, k, True)) for k in (2, 3)]
    out += [("constant_clips_per_video", (k, c, a)) for k in (1, 2) for c in (1, 2, 3) for a in (1, 2)]
    out += [("random", (k,)) for k in (1, 2, 3)]
    return out


def bounds(tier):
    return "1..3 videos of %s frames (all combinations) x %d clip samplers x frames_per_clip None,1..3 x sequential/random video order x listing permutations; histories: passes, breaks after every item, direct next; DataLoader with 0..3 workers" % (LENS, len(samplers(tier)))


def cases(tier):
    for n in (1, 2, 3):
        for lens in itertools.product(LENS, repeat=n):
            if n == 3 and tier == "quick" and (len(set(lens)) < 3 or list(lens) == sorted(lens)):
                continue
            yield {"kind": "iter", "lens": list(lens), "deep": tier != "quick"}
    for w in (0, 1, 2, 3):
        yield {"kind": "loader", "workers": w}
    yield {"kind": "listing"}
    yield {"kind": "misc"}


def put(root, lens):
    for v, n in enumerate(lens):
        d = Path(root) / VIDS[v]
        d.mkdir()
        for i in range(n):
            for c, off in (("y", 0), ("u", 100), ("v", 200)):
                a = np.zeros((2, 2, 3), dtype=np.uint8)
                a[..., 0], a[..., 1], a[..., 2] = v + off, i + off, 17
                Image.fromarray(a, "RGB").save(d / f"{VIDS[v]}_{i:05d}_{c}.png")


def mk_sampler(kind, args):
    from pytorchvideo.data.clip_sampling import make_clip_sampler
    a = list(args)
    a[0] = Fraction(a[0], 30)
    if kind == "uniform" and len(a) > 1:
        a[1] = Fraction(a[1], 30)
    return make_clip_sampler(kind, *a)


def pick(frames, fpc):
    if not fpc:
        return frames
    n = len(frames)
    return [frames[int(i)] for i in torch.clamp(torch.linspace(0, n - 1, fpc), 0, n - 1).long()]


def clips(kind, args, n, fpc):
    """(clip_index, aug_index, frame numbers) of one video, from a fresh sampler."""
    s = mk_sampler(kind, args)
    dur = n / 30.0
    last, out = 0.0, []
    while True:
        c = s(last, dur, {})
        lo, hi = math.ceil(30.0 * c.clip_start_sec), min(math.ceil(30.0 * min(c.clip_end_sec, dur)), n)
        if c.aug_index == 0:
            fr = pick(list(range(lo, hi)), fpc)
        out.append((c.clip_index, c.aug_index, fr))
        if c.is_last_clip:
            return out
        last = c.clip_end_sec


def read(s):
    v = s["video"]
    return (s["video_name"], s["video_index"], s["clip_index"], s["aug_index"], [int(x) for x in v[0, :, 0, 0]], [int(x) for x in v[1, :, 0, 0]], tuple(v.shape))


def make(root, kind, args, **kw):
    from neuralcompression.data import CLIC2020Video
    return CLIC2020Video(root, mk_sampler(kind, args), **kw)


def verify(t, name, got, lens, kind, args, fpc, seq, full=True):
    """got: samples of one pass in order. Every video once, contiguous, exact clips."""
    order = []
    groups = []
    for g in got:
        v = VIDS.index(g[0])
        if kind == "random" or not order or order[-1] != v or (groups and len(groups[-1]) == len(clips(kind, args, lens[v], fpc))):
            order.append(v)
            groups.append([])
        groups[-1].append(g)
        t.check(set(g[4]) <= {v}, f"{name}: frames of video {g[4]} returned as {g[0]}")
        t.check(g[6][0] == 3 and g[6][2:] == (2, 2), f"{name}: clip shape {g[6]}")
    if full:
        t.check(sorted(order) == list(range(len(lens))), f"{name}: one pass visits videos {order}, there are {len(lens)}")
        if seq:
            idx = [grp[0][1] for grp in groups]
            t.check(idx == sorted(idx), f"{name}: sequential order visits indices {idx}")
    for gi, (v, grp) in enumerate(zip(order, groups)):
        n = lens[v]
        if kind == "random":
            for g in grp:
                fr = g[5]
                k = args[0]
                if fpc:
                    t.check(len(fr) == fpc and fr == sorted(fr) and max(fr) < n, f"{name}: random clip frames {fr}")
                else:
                    t.check(fr == list(range(fr[0], fr[0] + len(fr))) and fr[-1] < n and len(fr) == min(k, n), f"{name}: random clip of {k} frames has frames {fr} of {n}")
            continue
        want = clips(kind, args, n, fpc)
        have = [(g[2], g[3], g[5]) for g in grp]
        if not full and gi == len(order) - 1:
            want = want[:len(have)]
        t.check(have == want, f"{name}: video of {n} frames gives clips {have}, sampler defines {want}")
    return order


def run_iter(t, case):
    from torch.utils.data import RandomSampler, SequentialSampler
    lens = case["lens"]
    with fsenv.scratch() as root:
        put(root, lens)
        for kind, args in samplers("x"):
            for fpc in (None, 1, 2, 3):
                for vs in (SequentialSampler, RandomSampler):
                    for mt in (False, True):
                        if mt and (fpc is not None or not case["deep"]) and kind != "uniform":
                            continue
                        name = f"videos {lens} {kind}{args} frames_per_clip={fpc} {vs.__name__}"
                        seq = vs is SequentialSampler
                        ok, ds = t.attempt(name, make, root, kind, args, video_sampler=vs, frames_per_clip=fpc, multithreaded_io=mt)
                        if not ok:
                            return
                        t.check(len(ds) == len(lens), f"{name}: length {len(ds)}")
                        total = len(lens) if kind == "random" else sum(len(clips(kind, args, n, fpc)) for n in lens)
                        first = None
                        for p in range(2):
                            ok, got = t.attempt(f"{name} pass {p}", lambda: [read(s) for s in itertools.islice(ds, total + 3)])
                            if not ok:
                                return
                            t.state(name, mt, p)
                            t.check(len(got) == total, f"{name}: pass {p} yields {len(got)} clips, {total} defined")
                            verify(t, f"{name} pass {p}", got, lens, kind, args, fpc, seq)
                            t.trace()
                            if seq and kind != "random":
                                t.check(first is None or got == first, f"{name}: second pass differs")
                                first = got
                        # a pass interrupted after every possible number of items, then a complete one
                        if mt:
                            continue
                        for stop in range(0, total):
                            if fpc not in (None, 2):
                                break
                            ds = make(root, kind, args, video_sampler=vs, frames_per_clip=fpc)
                            it = iter(ds)
                            part = [read(next(it)) for _ in range(stop)]
                            verify(t, f"{name} first {stop}", part, lens, kind, args, fpc, False, full=False)
                            got = [read(s) for s in itertools.islice(iter(ds), total + 3)]
                            t.state(name, "stop", stop)
                            t.check(len(got) == total, f"{name}: restarted after {stop} clips yields {len(got)} of {total}")
                            verify(t, f"{name} restarted after {stop}", got, lens, kind, args, fpc, seq)
                            t.trace()
                        # direct use of next
                        ds = make(root, kind, args, video_sampler=vs, frames_per_clip=fpc)
                        got = []
                        try:
                            while len(got) < total + 3:
                                got.append(read(next(ds)))
                        except StopIteration:
                            pass
                        t.check(len(got) == total, f"{name}: next() yields {len(got)} of {total}")
                        verify(t, f"{name} next()", got, lens, kind, args, fpc, seq)
    t.sample(case)


def run_loader(t, case):
    """DataLoader workers: together they deliver each clip exactly once, in every pass."""
    from torch.utils.data import DataLoader, RandomSampler, SequentialSampler
    lens = [3, 5, 2]
    w = case["workers"]
    with fsenv.scratch() as root:
        put(root, lens)
        for kind, args in (("uniform", (1,)), ("uniform", (2,)), ("constant_clips_per_video", (2, 2, 2)), ("random", (2,))):
            for vs in (SequentialSampler, RandomSampler):
                for seed in (0, 1, 2):
                    for persistent in ((False, True) if w else (False,)):
                        torch.manual_seed(seed)
                        ds = make(root, kind, args, video_sampler=vs)
                        dl = DataLoader(ds, batch_size=None, num_workers=w, persistent_workers=persistent)
                        for p in range(2):
                            name = f"{w} workers {kind}{args} {vs.__name__} seed={seed} persistent={persistent} pass {p}"
                            ok, got = t.attempt(name, lambda: [read(s) for s in dl])
                            if not ok:
                                return
                            t.state(name)
                            by = {}
                            for g in got:
                                by.setdefault(g[0], []).append(g)
                            t.check(sorted(by) == sorted(VIDS[:3]), f"{name}: videos {sorted(by)}")
                            for v, grp in by.items():
                                verify(t, f"{name} {v}", grp, lens, kind, args, None, False, full=False)
                                n = lens[VIDS.index(v)]
                                want = 1 if kind == "random" else len(clips(kind, args, n, None))
                                t.check(len(grp) == want, f"{name}: {v} delivered {len(grp)} clips of {want}")
                            t.trace()


def run_listing(t, case):
    """Neither the order of videos nor of frames depends on the directory listing."""
    from torch.utils.data import SequentialSampler
    for lens in ([3], [5], [1, 2], [3, 2, 1], [2, 5, 3]):
        with fsenv.scratch() as root:
            put(root, lens)
            for kind, args in (("uniform", (2,)), ("uniform", (5,)), ("constant_clips_per_video", (2, 2, 1))):
                ref = None
                for perm in ["sorted", "rev"] + fsenv.perms(5):
                    with fsenv.listing_order(root, perm):
                        name = f"videos {lens} {kind}{args} listing {perm}"
                        ok, got = t.attempt(name, lambda: [read(s) for s in make(root, kind, args, video_sampler=SequentialSampler)])
                    if not ok:
                        return
                    t.state(name)
                    if ref is None:
                        verify(t, name, got, lens, kind, args, None, True)
                        ref = got
                    t.check(got == ref, f"{name}: differs from another listing order: {got} / {ref}")
                    t.trace()
                # indexed access agrees
                for i in range(len(lens)):
                    for perm in ("sorted", "rev"):
                        with fsenv.listing_order(root, perm):
                            ds = make(root, "random", (2,), video_sampler=SequentialSampler)
                            s = read(ds[i])
                        t.check(s[0] == sorted(VIDS[:len(lens)])[i] and s[1] == i, f"video {i} is {s[0]} with listing {perm}")


def run_misc(t, case):
    from torch.utils.data import SequentialSampler
    with fsenv.scratch() as root:
        put(root, [5, 3])
        # transforms see every sample once
        for kind, args in (("uniform", (1,)), ("uniform", (2,)), ("constant_clips_per_video", (2, 2, 2))):
            calls = []
            ds = make(root, kind, args, video_sampler=SequentialSampler, transform=lambda s: calls.append(1) or {**s, "n": len(calls)})
            got = [s["n"] for s in itertools.islice(ds, 40)]
            t.check(got == list(range(1, len(got) + 1)) and len(calls) == len(got), f"transform applied {len(calls)} times for {len(got)} samples")
            t.state("transform", kind, args)
        for bad in ("dev", ""):
            t.must_raise(f"split {bad!r}", ValueError, make, root, "random", (1,), split=bad)
        for i in range(-2, 2):
            ds = make(root, "random", (2,), video_sampler=SequentialSampler)
            ok, s = t.attempt(f"index {i}", ds.__getitem__, i)
            t.check(ok and s["video_name"] == VIDS[:2][i], f"index {i} returns {s['video_name'] if ok else None}")


def run_case(t, case):
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
