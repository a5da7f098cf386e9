"""C12: streaming metrics: every batching, interleaving, order and worker partition of a small image pool."""
import copy
import itertools
import math
import pickle
import sys
import numpy as np
import scipy.linalg
import torch
import torch.nn as nn
from . import core

PID = "C12"
ASSUMPTIONS = ["pretrained feature networks (not downloadable) are replaced by small deterministic networks with the same interface", "every worker made at least one update of each kind it reports (torchmetrics cannot gather empty lists)",
               "KID is order independent only when the subset is the whole sample (random subsets otherwise)"]
METRICS = ["msssim", "dists_mean", "dists_sum", "fid", "kid", "swav"]


def bounds(tier):
    n = 4 if tier == "quick" else 5
    return f"pools of {n} image pairs: all compositions into batches, all orders, all real/generated interleavings, all assignments of batches to 1..3 workers; all update/compute/reset/clone/pickle histories of length <= {4 if tier == 'quick' else 5}"


class Backbone(nn.Module):
    """3 bounded, non-linear features per image, of 8-bit input."""

    def __init__(self, *a, **k):
        super().__init__()
        self.calls = []
        self.fc = None

    def train(self, mode=True):
        return super().train(False)

    def forward(self, x):
        x = x.double()
        if float(x.abs().max()) > 3:
            x = x / 255
        a = x.mean(dim=(1, 2, 3))
        b = (x[:, 0] * x[:, 1]).mean(dim=(1, 2))
        c = x[:, 2, 0, 0] * 0.5 - x[:, 1, -1, -1]
        return torch.stack([a, b, c], 1).float()


class Diff(nn.Module):
    def __init__(self, *a, **k):
        super().__init__()

    def train(self, mode=True):
        return super().train(False)

    def forward(self, a, b):
        return ((a - b) ** 2).mean(dim=(1, 2, 3)) + (a - b).abs().amax(dim=(1, 2, 3))


def pool(n, size=16):
    i = torch.arange(n).view(n, 1, 1, 1)
    c = torch.arange(3).view(1, 3, 1, 1)
    y = torch.arange(size).view(1, 1, size, 1)
    x = torch.arange(size).view(1, 1, 1, size)
    real = (i * 53 + c * 31 + y * 7 + x * 3 + (x * y * (i + 1)) % 17 + i * i * 11) % 256
    fake = (i * 71 + c * 13 + y * 5 + x * 9 + (x + y * (i + 2)) % 23 * 3 + 40 + i * i * i * 9) % 256
    return real.to(torch.uint8), fake.to(torch.uint8)


def make(name, **kw):
    import neuralcompression.metrics as M
    if name == "msssim":
        return M.MultiscaleStructuralSimilarity(window_size=3, power_factors=(0.3, 0.7), **kw)
    if name.startswith("dists"):
        import neuralcompression.metrics._dists as d
        old, d.NoTrainDists = d.NoTrainDists, Diff
        try:
            return M.DeepImageStructureTextureSimilarity(reduction=name[6:], **kw)
        finally:
            d.NoTrainDists = old
    if name.startswith("fid"):
        import neuralcompression.metrics._fid as d
    elif name.startswith("kid"):
        import neuralcompression.metrics._kid as d
    else:
        old = torch.hub.load
        torch.hub.load = lambda *a, **k: (HUB.append((a + tuple(k[n] for n in ('repo_or_dir', 'model') if n in k))[:2]), Backbone())[1]
        try:
            return M.FrechetInceptionDistanceSwAV(**kw)
        finally:
            torch.hub.load = old
    old, d.NoTrainInceptionV3 = d.NoTrainInceptionV3, Backbone
    try:
        return (M.FrechetInceptionDistance if name.startswith("fid") else M.KernelInceptionDistance)(**kw)
    finally:
        d.NoTrainInceptionV3 = old


PAIR = ("msssim", "dists_mean", "dists_sum")


HUB = []


def upd(m, name, side, imgs):
    """side: 'real'/'fake' (or 'pair' with a tuple of image batches)."""
    if name in PAIR:
        a, b = imgs
        m.update(a.float() / 255, b.float() / 255)
    else:
        m.update(imgs, real=(side == "real"))


def feats(name, m, imgs):
    if name.startswith("swav"):
        raw = name == "swav_raw"
        mean = 0.0 if raw else torch.tensor([0.485, 0.456, 0.406]).view(1, 3, 1, 1)
        std = 1.0 if raw else torch.tensor([0.228, 0.224, 0.225]).view(1, 3, 1, 1)
        return Backbone()((imgs.float() / 255 - mean) / std).double().numpy()
    return Backbone()(imgs).double().numpy()


def fid(a, b):
    ma, mb = a.mean(0), b.mean(0)
    ca, cb = np.cov(a, rowvar=False), np.cov(b, rowvar=False)
    s = scipy.linalg.sqrtm(ca @ cb)
    return float(((ma - mb) ** 2).sum() + np.trace(ca) + np.trace(cb) - 2 * np.trace(np.real(s)))


def mmd(a, b, degree, gamma, coef):
    g = gamma if gamma is not None else 1.0 / a.shape[1]
    K = lambda x, y: (x @ y.T * g + coef) ** degree
    m = len(a)
    kaa, kbb, kab = K(a, a), K(b, b), K(a, b)
    return float((kaa.sum() - np.trace(kaa) + kbb.sum() - np.trace(kbb)) / (m * (m - 1)) - 2 * kab.sum() / (m * m))


def oracle(name, m, real, fake):
    if name == "msssim":
        import neuralcompression.functional as F
        v = [float(F.multiscale_structural_similarity(a[None].float() / 255, b[None].float() / 255, window_size=3, power_factors=(0.3, 0.7), reduction="sum")) for a, b in zip(real, fake)]
        return sum(v) / len(v)
    if name.startswith("dists"):
        v = [float(Diff()(a[None].float() / 255, b[None].float() / 255)) for a, b in zip(real, fake)]
        return sum(v) / (len(v) if name == "dists_mean" else 1)
    fa, fb = feats(name, m, real), feats(name, m, fake)
    if name in ("fid", "swav", "swav_raw"):
        return fid(fa, fb)
    return mmd(fa, fb, 3, None, 1.0)


def value(m):
    v = m.compute()
    return float(v[0]) if isinstance(v, tuple) else float(v)


def close(a, b, tol=3e-5):
    return abs(a - b) <= tol * (1 + abs(b))


def KW(name, n):
    return dict(subsets=3, subset_size=n) if name == "kid" else {}


def compositions(n):
    for cuts in itertools.product((0, 1), repeat=n - 1):
        out, cur = [], [0]
        for i, c in enumerate(cuts):
            if c:
                out.append(cur)
                cur = []
            cur.append(i + 1)
        out.append(cur)
        yield out


def interleavings(a, b):
    if not a or not b:
        yield [("real", x) for x in a] + [("fake", x) for x in b]
        return
    for r in interleavings(a[1:], b):
        yield [("real", a[0])] + r
    for r in interleavings(a, b[1:]):
        yield [("fake", b[0])] + r


def cases(tier):
    n = 4 if tier == "quick" else 5
    for name in METRICS:
        yield {"kind": "batch", "m": name, "n": n}
        yield {"kind": "order", "m": name, "n": n}
        for w in (2, 3):
            yield {"kind": "dist", "m": name, "n": n, "w": w}
        for first in range(len(OPS)):
            yield {"kind": "history", "m": name, "first": first, "depth": 4 if tier == "quick" else 5}
    yield {"kind": "kid"}
    yield {"kind": "options"}


OPS = ["u0", "u1", "u2", "compute", "reset", "clone", "pickle", "train"]


def run_case(t, case):
    globals()["do_" + case["kind"]](t, case)


def do_batch(t, case):
    name, n = case["m"], case["n"]
    real, fake = pool(n)
    want = oracle(name, make(name, **KW(name, n)), real, fake)
    t.check(math.isfinite(want) and want != 0, f"{name}: oracle {want}")
    for ca in compositions(n):
        others = [ca] if name in PAIR else list(compositions(n))
        for cb in others:
            if name in PAIR:
                scheds = [[("pair", i) for i in ca]]
            else:
                scheds = list(interleavings(ca, cb)) if len(ca) + len(cb) <= 6 else [next(interleavings(ca, cb)), list(interleavings(cb, ca))[-1]]
            for sched in scheds:
                if name not in PAIR:
                    sa = [s for s in sched if s[0] == "real"]
                    if sum(len(i) for _, i in sa) != n:
                        continue
                m = make(name, **KW(name, n))
                for side, idx in sched:
                    upd(m, name, side, (real[idx], fake[idx]) if side == "pair" else (real if side == "real" else fake)[idx])
                    t.step()
                v = value(m)
                t.check(close(v, want), f"{name} updates {sched}: {v}, all at once {want}")
                t.check(close(value(m), v, 1e-12), f"{name}: computing twice changes the value")
                t.state(name, ca, cb, sched)
                t.trace()
                if len(t.problems) > 4:
                    return


def do_order(t, case):
    name, n = case["m"], case["n"]
    real, fake = pool(n)
    want = oracle(name, make(name, **KW(name, n)), real, fake)
    for perm in itertools.permutations(range(n)):
        for perm2 in ([perm] if name in PAIR else [perm, tuple(range(n)), perm[::-1]]):
            m = make(name, **KW(name, n))
            for i, j in zip(perm, perm2):
                if name in PAIR:
                    upd(m, name, "pair", (real[[i]], fake[[i]]))
                else:
                    upd(m, name, "real", real[[i]])
                    upd(m, name, "fake", fake[[j]])
                t.step()
            t.check(close(value(m), want), f"{name} order {perm}/{perm2}: {value(m)}, expected {want}")
            t.state(name, perm, perm2)
    # swapping real and generated is not the same as mixing them
    if name not in PAIR:
        m = make(name, **KW(name, 2 * n if name == "kid" else n))
        both = torch.cat([real, fake])
        upd(m, name, "real", both)
        upd(m, name, "fake", both)
        if name != "kid":
            t.check(abs(value(m)) < 1e-4, f"{name}: equal sets have distance {value(m)}")


def do_dist(t, case):
    name, n, W = case["m"], case["n"], case["w"]
    real, fake = pool(n)
    want = oracle(name, make(name, **KW(name, n)), real, fake)
    for assign in itertools.product(range(W), repeat=n):
        if set(assign) != set(range(W)):
            continue
        for batched in (False, True):
            log = [[] for _ in range(W)]
            ms = []
            for w in range(W):
                mine = [i for i in range(n) if assign[i] == w]
                m = make(name, **KW(name, n))
                groups = [mine] if batched else [[i] for i in mine]
                for g in groups:
                    if name in PAIR:
                        upd(m, name, "pair", (real[g], fake[g]))
                    else:
                        upd(m, name, "real", real[g])
                        upd(m, name, "fake", fake[g])
                    t.step()
                m.distributed_available_fn = lambda: True
                ms.append(m)
            tag = f"{name} images on workers {assign} {'one batch' if batched else 'one by one'}"
            # what each worker contributes to every gather, in order
            for w in range(W):
                probe = copy.deepcopy(ms[w])

                def rec(x, group=None, w=w):
                    log[w].append(x.clone())
                    return [x]
                try:
                    probe.sync(dist_sync_fn=rec)
                except Exception as e:  # noqa: BLE001
                    t.fail(f"{tag}: synchronising raised {type(e).__name__}: {e}")
                    return
            if not t.check(len({len(x) for x in log}) == 1, f"{tag}: workers take part in different numbers of gather operations {[len(x) for x in log]}"):
                return
            for w in range(W):
                k = [0]

                def gather(x, group=None):
                    k[0] += 1
                    return [log[v][k[0] - 1].clone() for v in range(W)]
                ms[w].dist_sync_fn = gather
                ok, v = t.attempt(f"{tag}: compute on worker {w}", value, ms[w])
                if not ok:
                    return
                t.check(close(v, want), f"{tag}: worker {w} reports {v}, expected {want}")
                # local state is untouched by the synchronised compute
                ms[w].distributed_available_fn = lambda: False
                mine = [i for i in range(n) if assign[i] == w]
                if name in PAIR:
                    ms[w]._computed = None
                    t.check(close(value(ms[w]), oracle(name, ms[w], real[mine], fake[mine])), f"{tag}: local value of worker {w} after the synchronisation")
                else:
                    rest = [i for i in range(n) if assign[i] != w]
                    upd(ms[w], name, "real", real[rest])
                    upd(ms[w], name, "fake", fake[rest])
                    ok, v = t.attempt(f"{tag}: updating after synchronisation", value, ms[w])
                    if ok:
                        t.check(close(v, want), f"{tag}: updating worker {w} after the synchronisation gives {v}, expected {want}")
            t.state(name, assign, batched)
            t.trace()


def do_history(t, case):
    name = case["m"]
    real, fake = pool(7)
    sets = {"u0": [0, 1], "u1": [2, 3, 4], "u2": [5, 6]}
    vals = {}

    def want(idx, m):
        key = tuple(idx)
        if key not in vals:
            vals[key] = oracle(name, m, real[idx], fake[idx])
        return vals[key]
    for rest in itertools.product(range(len(OPS)), repeat=case["depth"] - 1):
        seq = [OPS[i] for i in (case["first"],) + rest]
        if not any(s[0] == "u" for s in seq):
            continue
        m = make(name, **KW(name, 2))
        seen = []
        other = None
        for op in seq:
            t.step()
            try:
                if op[0] == "u":
                    g = sets[op]
                    if name in PAIR:
                        upd(m, name, "pair", (real[g], fake[g]))
                    else:
                        upd(m, name, "fake", fake[g])
                        upd(m, name, "real", real[g])
                    seen += g
                elif op == "compute" and seen:
                    check_value(t, m, name, seen, want, seq)
                elif op == "reset":
                    m.reset()
                    seen = []
                elif op == "clone":
                    other = (m, list(seen))
                    m = m.clone()
                elif op == "pickle":
                    m = pickle.loads(pickle.dumps(m))
                elif op == "train":
                    m.train()
            except Exception as e:  # noqa: BLE001
                t.fail(f"{name} history {seq}: {op} raised {type(e).__name__}: {e}")
                return
        if seen:
            check_value(t, m, name, seen, want, seq)
        if other is not None and other[1]:
            check_value(t, other[0], name, other[1], want, seq + ["original of the clone"])
        t.state(name, seq)
        t.trace()
        if len(t.problems) > 4:
            return


def check_value(t, m, name, seen, want, seq):
    if name == "kid":
        m.subset_size = len(seen)
    v = value(m)
    w = want(seen, m)
    t.check(close(v, w), f"{name} history {seq}: {v}, expected {w}")


def do_kid(t, case):
    real, fake = pool(5)
    fa, fb = Backbone()(real).double().numpy(), Backbone()(fake).double().numpy()
    for deg, gamma, coef in itertools.product((1, 2, 3, 4), (None, 0.5, 2.0), (0.5, 1.0, 3.0)):
        for size in (2, 3, 4, 5):
            for subsets in (1, 2, 7):
                m = make("kid", subsets=subsets, subset_size=size, degree=deg, gamma=gamma, coef=coef)
                upd(m, "kid", "real", real)
                upd(m, "kid", "fake", fake)
                ok, r = t.attempt(f"kid degree={deg} gamma={gamma} coef={coef} size={size}", m.compute)
                if not ok:
                    return
                mean, std = float(r[0]), float(r[1])
                tag = f"KID degree={deg} gamma={gamma} coef={coef} subsets={subsets} size={size}"
                allv = [mmd(fa[list(i)], fb[list(j)], deg, gamma, coef) for i in itertools.combinations(range(5), size) for j in itertools.combinations(range(5), size)]
                lo, hi = min(allv), max(allv)
                eps = 1e-6 * (1 + abs(lo) + abs(hi))
                t.check(lo - eps <= mean <= hi + eps, f"{tag}: mean {mean} outside the values {lo}..{hi} of all subsets")
                t.check(0 <= std <= (hi - lo) / 2 + eps, f"{tag}: deviation {std}")
                if size == 5:
                    t.check(std <= eps, f"{tag}: deviation {std} although every subset is the whole sample")
                if subsets == 1:
                    t.check(std <= eps and min(abs(v - mean) for v in allv) <= eps, f"{tag}: one subset gives a value no subset has")
                t.state(deg, gamma, coef, size, subsets)
                t.step()
    m = make("kid", subsets=2, subset_size=6)
    upd(m, "kid", "real", real)
    upd(m, "kid", "fake", fake)
    t.must_raise("more samples requested than available", Exception, m.compute)


def do_options(t, case):
    real, fake = pool(4)
    for name in ("fid", "kid"):
        kw = KW(name, 4)
        a, b = make(name, **kw), make(name, normalize=True, **kw)
        for side, im in (("real", real), ("fake", fake)):
            upd(a, name, side, im)
            b.update((im.double() + 0.25) / 255, real=side == "real")
        t.check(close(value(a), value(b)), f"{name}: normalised images give {value(b)}, 8-bit images {value(a)}")
        t.state(name, "normalize")
    import neuralcompression.metrics as M
    for f in (64, 192, 768, 2048):
        t.attempt(f"features of size {f}", make, "fid", feature=f)
    # what a model selection by the metric relies on
    for name, up in (("fid", False), ("swav", False), ("kid", False), ("msssim", True), ("dists_mean", False)):
        h = make(name).higher_is_better
        t.check(h is None or bool(h) == up, f"{name}: higher is better: {h}")
    for f in (0, 63, 65, "2048", 2049):
        t.must_raise(f"feature {f!r}", (ValueError,), make, "fid", feature=f)
    for nz in (1, "yes", None):
        t.must_raise(f"normalize {nz!r}", ValueError, make, "fid", normalize=nz)
        t.must_raise(f"normalize {nz!r}", ValueError, make, "swav", normalize=nz)
    t.must_raise("reduction", ValueError, make, "dists_max")
    d = make("dists_mean")
    ok_ = torch.zeros(1, 3, 4, 4)
    for bad in (torch.full((1, 3, 4, 4), 1.01), torch.full((1, 3, 4, 4), -0.01), torch.zeros(3, 4, 4), torch.zeros(1, 1, 4, 4)):
        for pair in ((bad, ok_), (ok_, bad)):
            t.must_raise(f"DISTS input {tuple(bad.shape)} {float(bad.max())}", ValueError, d.update, *pair)
    d.update(ok_ + 0.5, ok_)
    t.check(float(d.total) == 1, "rejected images were counted")
    del HUB[:]
    s0, s1 = make("swav"), make("swav", normalize=False)
    t.check(HUB == [("facebookresearch/swav:main", "resnet50")] * 2, f"SwAV features come from {HUB}")
    import neuralcompression.metrics._fid_swav as sw
    old, torch.hub.load = torch.hub.load, lambda *a, **k: (HUB.append((a + tuple(k[n] for n in ('repo_or_dir', 'model') if n in k))[:2]), Backbone())[1]
    try:
        sw.NoTrainSwAV("other/repo")
    finally:
        torch.hub.load = old
    t.check(HUB[-1][0] == "other/repo", f"the SwAV repository given is replaced by {HUB[-1]}")
    for m, k in ((s0, "swav"), (s1, "swav_raw"), (make("swav", normalize=True), "swav")):
        m.update(real, real=True)
        m.update(fake, real=False)
        t.check(close(value(m), oracle(k, m, real, fake)), f"SwAV normalisation ({k})")
        m.train()
        t.check(not any(q.training for q in m.feature_extractor.modules()), "feature network in training mode")
    # every constructor setting of MS-SSIM reaches the score, alone and with the others
    import neuralcompression.functional as F
    rf, ff = real.float(), fake.float() * 0.3 + real.float() * 0.7
    scores = {}
    for dr, ws, k1, k2, sd, pf in itertools.product((255.0, 1.0), (3, 5), (0.01, 0.2), (0.03, 0.3), (1.5, 0.6), ((0.3, 0.7), (1.0,))):
        kw = dict(data_range=dr, window_size=ws, k1=k1, k2=k2, gaussian_std=sd, power_factors=pf)
        a, b = (rf, ff) if dr == 255.0 else (rf / 255, ff / 255)
        ok, m = t.attempt(f"MS-SSIM metric {kw}", M.MultiscaleStructuralSimilarity, **kw)
        if not ok:
            return
        m.update(b[:1], a[:1])
        m.update(b[1:], a[1:])
        want = float(F.multiscale_structural_similarity(b, a, reduction="mean", **kw))
        t.check(close(value(m), want), f"MS-SSIM metric {kw}: {value(m)}, the functional gives {want}")
        scores.setdefault(round(want, 6), []).append(kw)
        t.state("msssim", dr, ws, k1, k2, sd, pf)
    t.check(len(scores) >= 32, f"the MS-SSIM settings give only {len(scores)} different scores")
    big_r, big_f = pool(2, 176)
    m = M.MultiscaleStructuralSimilarity()
    m.update(big_f.float() / 255, big_r.float() / 255)
    want = float(F.multiscale_structural_similarity(big_f.float() / 255, big_r.float() / 255, data_range=1.0, window_size=11, k1=0.01, k2=0.03, gaussian_std=1.5, power_factors=(0.0448, 0.2856, 0.3001, 0.2363, 0.1333)))
    t.check(close(value(m), want), f"default MS-SSIM metric: {value(m)}, expected {want}")
    for name in ("fid", "kid", "swav"):
        m = make(name, **KW(name, 4))
        upd(m, name, "real", real)
        r0 = [x.clone() for x in m.real_features]
        upd(m, name, "fake", fake)
        t.check(len(m.real_features) == 1 and torch.equal(m.real_features[0], r0[0]) and len(m.fake_features) == 1, f"{name}: real and generated features mixed")
        t.check(not m.real_features[0].requires_grad, f"{name}: features keep a graph")
    t.state("options")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
