"""C08: VCT video pipeline (order, causality window, lockstep, cache, strings)."""
import itertools
import os
import sys
import torch
from . import core

PID = "C08"
ASSUMPTIONS = ["the entropy model is the real class at reduced width (d_model 8, windows 2/4, small tables); the transforms are the repository's with few channels",
               "latents without exact rounding ties"]
CH = 4


def bounds(tier):
    return ("clip length 1..%d, context 1..3, batch 1..2, %d frame sizes, 2 transform families, every frame perturbed and every frame observed, "
            "cache on/off, every prefix decoded, all forward/compress/mode histories of length <= 3" % ((5, 8) if tier == "quick" else (7, 16)))


def modules():
    p = os.path.join(core.REPO, "projects", "torch_vct")
    if p not in sys.path:
        sys.path.insert(0, p)
    import model_pipeline
    from neural import bottlenecks, transforms
    from datamodules.video_data_api import Scenes, VideoDataset
    from utils import memoize
    return model_pipeline, transforms, bottlenecks, Scenes, VideoDataset, memoize


def make(ctx, family="gdn", seed=0):
    mp, tr, bo, *_ = modules()
    real = mp.VCTEntropyModel

    def small(*a, **k):
        k.update(window_size_enc=4, window_size_dec=2, num_layers_encoder_sep=1, num_layers_encoder_joint=1,
                 num_layers_decoder=1, d_model=8, num_head=2, mlp_expansion=2)
        return real(*a, **k)
    torch.manual_seed(seed)
    if family == "gdn":
        an, sy = tr.ConvGDNAnalysis(4, CH), tr.ConvGDNSynthesis(4, CH)
    else:
        an, sy = tr.ELICAnalysis(1, [4, 4, 4, CH]), tr.ELICSynthesis(1, [CH, 4, 4, 3])
    mp.VCTEntropyModel = small
    try:
        m = mp.VCTPipeline(an, sy, compression_channels=CH, context_len=ctx)
    finally:
        mp.VCTEntropyModel = real
    m.entropy_model.bottleneck = bo.GsnConditionalLocScaleShift(num_scales=12, num_means=6, min_scale=0.05, tail_mass=2 ** -8)
    g = torch.Generator().manual_seed(5 + seed)
    with torch.no_grad():
        for n, p in m.entropy_model.named_parameters():
            if p.dim() >= 2:
                p.copy_(torch.randn(p.shape, generator=g) * (0.8 if p.dim() == 3 else 1.8 / p.shape[-1] ** 0.5))
        conv = [q for q in an.modules() if isinstance(q, torch.nn.Conv2d)]
        if family == "gdn":
            conv[-1].weight.mul_(25.0)
        else:
            for q in conv:
                if q.stride == (2, 2):
                    q.weight.mul_(4.0)
    m.eval()
    return m


def clip(b, t_, h, w, seed=0):
    bi = torch.arange(b).view(b, 1, 1, 1, 1)
    ti = torch.arange(t_).view(1, t_, 1, 1, 1)
    ci = torch.arange(3).view(1, 1, 3, 1, 1)
    y = torch.arange(h).view(1, 1, 1, h, 1)
    x = torch.arange(w).view(1, 1, 1, 1, w)
    v = (y * 7 + x * 13 + x * y * 3 + ci * 29 + bi * 101 + ti * ti * 17 + ti * 5 * (x + 1) + seed * 57 + (x * x * y) // 5)
    return (v % 97).float() / 96


SIZES = [(32, 32), (33, 32), (32, 47), (48, 40), (40, 63), (64, 33), (50, 50), (64, 64)]


def cases(tier):
    T = 5 if tier == "quick" else 7
    sizes = SIZES if tier == "quick" else SIZES + [(h, w) for h in (34, 49, 57) for w in (35, 46, 61)]
    for fam in ("gdn", "elic"):
        for ctx in (1, 2, 3):
            for i, s in enumerate(sizes):
                yield {"kind": "shape", "fam": fam, "ctx": ctx, "size": list(s), "T": T}
            yield {"kind": "dep", "fam": fam, "ctx": ctx, "T": T}
            yield {"kind": "dep", "fam": fam, "ctx": ctx, "T": 3}
            yield {"kind": "history", "fam": fam, "ctx": ctx}
    yield {"kind": "reject"}


def run_case(t, case):
    mp, tr, bo, Scenes, VideoDataset, memoize = modules()
    if case["kind"] == "reject":
        m = make(2)
        for shp in [(2, 3, 32, 32), (1, 2, 4, 32, 32), (1, 2, 3, 32)]:
            t.must_raise(f"video of shape {shp}", (ValueError, AssertionError), m, VideoDataset(torch.zeros(shp)))
        t.must_raise("compress a batch of two", (AssertionError, ValueError), m.compress_video, VideoDataset(clip(2, 2, 32, 32)))
        t.state("reject")
        return
    m = make(case["ctx"], case["fam"])
    with torch.no_grad():
        if case["kind"] == "shape":
            shape(t, m, case, Scenes, VideoDataset, memoize)
        elif case["kind"] == "dep":
            dep(t, m, case, VideoDataset)
        else:
            history(t, case, VideoDataset)


def fwd(m, v):
    rec, (lik,) = m(v)
    return rec, lik


def close(a, b, tol=2e-4):
    return a.shape == b.shape and bool(torch.allclose(a, b, atol=tol, rtol=1e-4))


def shape(t, m, case, Scenes, VideoDataset, memoize):
    h, w = case["size"]
    full = clip(2, case["T"], h, w)
    refs = None
    for T in range(1, case["T"] + 1):
        tag = f"{case['fam']} context={case['ctx']} {h}x{w} T={T}"
        v = VideoDataset(full[:1, :T].contiguous())
        keep = v.video_tensor.clone()
        ok, r = t.attempt(f"forward {tag}", fwd, m, v)
        if not ok:
            return
        rec, lik = r
        t.check(tuple(rec.shape) == (1, T, 3, h, w), f"{tag}: reconstruction has shape {tuple(rec.shape)}")
        t.check(lik.shape[0] == T and bool(((lik > 0) & (lik <= 1 + 1e-6)).all()), f"{tag}: likelihoods {tuple(lik.shape)}")
        t.state(tag, rec)
        t.outcome(rec)
        # a longer clip does not change earlier frames
        if refs is not None:
            t.check(close(rec[:, :T - 1], refs[0]) and close(lik[:T - 1], refs[1]), f"{tag}: appending a frame changed earlier frames")
        refs = (rec, lik)
        # rate bookkeeping
        per = m.compute_rate(lik, per_frame=True)
        tot = m.compute_rate(lik)
        want = -(lik.double().log2().sum(dim=(1, 2, 3)))
        t.check(per.shape == (T,) and close(per.double(), want, 1e-2) and close(tot.double(), want.sum(), 1e-1), f"{tag}: rate is not the sum of -log2 likelihood")
        # materialised encoder, separate decoder, with and without cache
        n_im = getattr(m.analysis_transform, "num_downsampling_layers", 0)
        f = 2 ** n_im
        vp = torch.nn.functional.pad(v.video_tensor, (0, -w % f, 0, -h % f, 0, 0), "reflect")
        sc = Scenes(m.analysis_transform(vp))
        runs = {}
        for cname in ("none", "cache"):
            mk = (lambda: None) if cname == "none" else memoize.create_cache
            ok, outs = t.attempt(f"encode_and_decode {tag} {cname}", lambda: list(m.encode_and_decode_scenes(sc, cache=mk())))
            if not ok:
                return
            bt = list(m.encode_scenes(sc, cache=mk()))
            dec = list(m.decode_scenes(iter(bt), cache=mk()))
            t.step(3)
            t.check(len(outs) == len(bt) == len(dec) == T, f"{tag}: {len(outs)}/{len(bt)}/{len(dec)} outputs")
            for i, (o, b, d) in enumerate(zip(outs, bt, dec)):
                t.check(torch.equal(o.reconstruction, d), f"{tag} {cname}: decoder run on its own differs at frame {i}")
                t.check(torch.equal(o.likelihood, b.likelihood), f"{tag} {cname}: likelihood of frame {i} differs")
            for k in range(1, T):
                pre = list(m.decode_scenes(iter(bt[:k]), cache=mk()))
                t.check(len(pre) == k and all(torch.equal(a, b) for a, b in zip(pre, dec)), f"{tag} {cname}: decoding a prefix of {k} differs")
            runs[cname] = outs
            t.trace()
        for i, (a, b) in enumerate(zip(runs["none"], runs["cache"])):
            t.check(torch.equal(a.reconstruction, b.reconstruction) and torch.equal(a.likelihood, b.likelihood), f"{tag}: cache changes frame {i}")
        emb = torch.stack([o.reconstruction for o in runs["none"]], dim=1)
        again = m.synthesis_transform(emb, v.shape)[..., :h, :w]
        t.check(close(again, rec), f"{tag}: forward does not return the synthesised scenes in order")
        # string coding
        got = []
        em = m.entropy_model
        orig = em.bottleneck.compress

        def spy(inputs, scales, means):
            r = orig(inputs, scales, means)
            got.append(sum(len(s) for s in r[1]))
            return r
        em.bottleneck.compress = spy
        try:
            ok, r = t.attempt(f"compress_video {tag}", m.compress_video, v)
        finally:
            del em.bottleneck.compress
        if not ok:
            return
        code, bits = r
        ok, out = t.attempt(f"decompress_video {tag}", m.decompress_video, v.shape, [code])
        if ok:
            t.check(tuple(out.shape) == (1, T, 3, h, w), f"{tag}: decompressed shape {tuple(out.shape)}")
            if out.shape == rec.shape:
                t.check(close(out, rec), f"{tag}: string coding reconstructs differently from the evaluation pass by {float((out - rec).abs().max())}")
        t.check(len(bits) == T and abs(sum(bits[1:]) - 8 * sum(got)) < 1e-6, f"{tag}: reported bits {bits[1:]} for {8 * sum(got)} coded bits")
        t.check(abs(bits[0] - float(want[0])) <= 1e-3 * float(want[0]) + 0.1, f"{tag}: bits of the first frame")
        if T > 1:
            est = float(want[1:].sum())
            n = len(got)
            t.check(est * 0.75 - 8 * n <= 8 * sum(got) <= est * 1.5 + 80 * n, f"{tag}: {8 * sum(got)} coded bits in {n} strings, likelihood predicts {est}")
        rec2, lik2 = fwd(m, v)
        t.check(torch.equal(rec2, rec) and torch.equal(lik2, lik), f"{tag}: evaluation pass after string coding differs")
        t.check(torch.equal(v.video_tensor, keep), f"{tag}: input clip modified")
    v2 = VideoDataset(full)
    rec2, lik2 = fwd(m, v2)
    t.check(close(rec2[:1], refs[0]), f"{case}: a clip's reconstruction depends on the other clip of the batch")
    rs, _ = fwd(m, VideoDataset(full.flip(0)))
    t.check(close(rs.flip(0), rec2), f"{case}: exchanging the clips of a batch does not exchange the results")


def dep(t, m, case, VideoDataset):
    T, ctx = case["T"], case["ctx"]
    vac = 0
    for (h, w) in [(32, 32), (40, 48)]:
        for seed in (0, 1):
            base = clip(1, T, h, w, seed)
            rec, lik = fwd(m, VideoDataset(base))
            for k in range(T):
                pert = base.clone()
                pert[:, k] = 1 - pert[:, k]
                r2, l2 = fwd(m, VideoDataset(pert))
                t.step()
                moved = int((latents(m, pert) != latents(m, base)).sum())
                vac += moved < 4
                for f in range(T):
                    d = float((r2[:, f] - rec[:, f]).abs().max())
                    tag = f"{case['fam']} context={ctx} {h}x{w} T={T}: changing frame {k}, reconstruction of frame {f} moved by {d}"
                    if f < k or f > k + ctx:
                        t.check(d <= 1e-5, tag + " although it is outside the context")
                        t.check(float((l2[f] - lik[f]).abs().max()) <= 1e-5, f"{case}: likelihoods of frame {f} depend on frame {k}")
                    else:
                        # only meaningful if the quantised latents of frame k changed at all
                        if moved >= 4:
                            t.check(d > 0 or float((l2[f] - lik[f]).abs().max()) > 0, tag + ", expected it to be used")
                    t.state(case["fam"], ctx, h, w, T, k, f, seed)
            # repeating the sequence from the start gives the same first frames (no state kept between clips)
            r3, l3 = fwd(m, VideoDataset(base))
            t.check(torch.equal(r3, rec) and torch.equal(l3, lik), f"{case}: second pass over the same clip differs")
    t.outcome("vacuous", vac)


def latents(m, v):
    f = 2 ** getattr(m.analysis_transform, "num_downsampling_layers", 0)
    h, w = v.shape[-2:]
    vp = torch.nn.functional.pad(v, (0, -w % f, 0, -h % f, 0, 0), "reflect")
    return m.analysis_transform(vp).round()


def history(t, case, VideoDataset):
    base = make(case["ctx"], case["fam"])
    va, vb = VideoDataset(clip(1, 3, 32, 48)), VideoDataset(clip(1, 2, 48, 33, 4))
    gold = {}
    for n, v in (("a", va), ("b", vb)):
        gold[n] = fwd(base, v)
        c, bits = base.compress_video(v)
        gold[n] += (base.decompress_video(v.shape, [c]), bits)
    ops = ["fa", "fb", "ca", "cb", "train", "trainfwd"]
    for seq in itertools.product(ops, repeat=3):
        if seq[-1][0] not in "fc":
            continue
        m = make(case["ctx"], case["fam"])
        for op in seq:
            t.step()
            try:
                v = {"a": va, "b": vb}.get(op[-1])
                if op in ("fa", "fb"):
                    m.eval()
                    r, l = fwd(m, v)
                    t.check(torch.equal(r, gold[op[1]][0]) and torch.equal(l, gold[op[1]][1]), f"{case} {seq}: evaluation pass differs")
                elif op in ("ca", "cb"):
                    c, bits = m.compress_video(v)
                    out = m.decompress_video(v.shape, [c])
                    t.check(torch.equal(out, gold[op[1]][2]) and bits == gold[op[1]][3], f"{case} {seq}: compressed result differs")
                elif op == "train":
                    m.train()
                else:
                    m.train()
                    torch.manual_seed(1)
                    m(VideoDataset(clip(1, 2, 32, 32)))
            except Exception as e:  # noqa: BLE001
                t.fail(f"{case} {seq}: {op} raised {type(e).__name__}: {e}")
                return
        t.state(case["fam"], case["ctx"], seq)
        t.trace()


if __name__ == "__main__":
    core.main(sys.modules[__name__])
