"""C07: VCT entropy model causality and encoder/decoder agreement."""
import itertools
import sys
import torch
from . import core

PID = "C07"
ASSUMPTIONS = ["messages of at least 4 symbols per token step (third-party coder limitation)", "reduced width (d_model 8, 1+1+2 layers) and reduced bottleneck tables; the attention, shifting, patching and coding code is the real one",
               "weights redrawn with larger variance so that any dependency is visible; an absent dependency is exact (difference zero up to 1e-6)",
               "comparison with the evaluation-mode pass uses latents without exact rounding ties"]

# (win_dec, win_enc, context_len, channels)
CFG = [(1, 1, 1, 2), (1, 3, 2, 2), (2, 2, 1, 1), (2, 2, 2, 2), (2, 4, 2, 4), (2, 4, 3, 2), (3, 3, 2, 1), (2, 2, 3, 1), (3, 3, 1, 4)]
BIG = CFG + [(4, 8, 2, 2), (4, 4, 3, 4), (2, 4, 1, 3)]


def bounds(tier):
    return ("%d configurations (window 1..%d, context 1..3, channels 1..%d), 4-5 latent sizes each incl. non-multiples, every (perturbed, observed) position pair, "
            "every context length in use, token-by-token decoding by an independent decoder" % (len(CFG if tier == "quick" else BIG), 3 if tier == "quick" else 4, 2 if tier == "quick" else 3))


def make(cfg, seed=0):
    from projects.torch_vct.neural.entropy_model import VCTEntropyModel
    from projects.torch_vct.neural.bottlenecks import GsnConditionalLocScaleShift
    wd, we, cl, c = cfg
    torch.manual_seed(seed)
    m = VCTEntropyModel(num_channels=c, context_len=cl, window_size_enc=we, window_size_dec=wd, num_layers_encoder_sep=1,
                        num_layers_encoder_joint=1, num_layers_decoder=2, d_model=8, num_head=2, mlp_expansion=2)
    m.bottleneck = GsnConditionalLocScaleShift(num_scales=12, num_means=6, min_scale=0.05, tail_mass=2 ** -8)
    g = torch.Generator().manual_seed(17 + seed)
    with torch.no_grad():
        for n, p in m.named_parameters():
            if p.dim() >= 2:
                p.copy_(torch.randn(p.shape, generator=g) * (0.8 if p.dim() == 3 else 1.2 / p.shape[-1] ** 0.5 * 1.5))
            elif "ln_" not in n and "layernorm" not in n.lower():
                p.add_(torch.randn(p.shape, generator=g) * 0.3)
    m.eval()
    m.update(force=True)
    return m


def sizes(cfg):
    wd, we = cfg[0], cfg[1]
    m = (we - wd) // 2
    out = []
    for h, w in [(wd, wd), (wd, 2 * wd), (2 * wd, wd), (2 * wd, 3 * wd), (2 * wd + 1, 2 * wd), (2 * wd, 3 * wd - 1), (2 * wd - 1, 3 * wd + 1)]:
        H, W = -(-h // wd) * wd, -(-w // wd) * wd
        if H - h + m < h and W - w + m < w and (h, w) not in out:
            out.append((h, w))
    return out


def latent(b, c, h, w, seed):
    n = torch.arange(b * c * h * w).reshape(b, c, h, w)
    return ((n * 37 + seed * 11 + (n * n) % 13) % 23 - 11).float() * 0.83 + 0.13


def reflect_index(n, wd):
    """index map of the padded line of length ceil(n/wd)*wd"""
    N = -(-n // wd) * wd
    return [i if i < n else 2 * (n - 1) - i for i in range(N)]


def cases(tier):
    for i, cfg in enumerate(CFG if tier == "quick" else BIG):
        for s in sizes(cfg):
            for seed in ((0,) if tier == "quick" else (0, 1, 2)):
                yield {"kind": "causal", "cfg": list(cfg), "size": list(s), "seed": seed}
                if -(-s[0] // cfg[0]) * -(-s[1] // cfg[0]) * cfg[3] < 4:
                    continue  # compressai's encoder aborts on messages of fewer than 4 symbols
                yield {"kind": "code", "cfg": list(cfg), "size": list(s), "seed": seed}


class Spy:
    """Records the bottleneck calls of the model (public submodule)."""

    def __init__(self, bn):
        self.bn, self.fw, self.strings, self.dec = bn, [], [], []
        self.of, self.oc, self.od = bn.forward, bn.compress, bn.decompress

    def __enter__(self):
        def f(inputs, scales, means, training=None):
            self.fw.append((scales, means))
            return self.of(inputs, scales, means, training)

        def c(inputs, scales, means):
            r = self.oc(inputs, scales, means)
            self.strings.append([bytes(s) for s in r[1]])
            return r

        def d(strings, scales, means):
            self.dec.append([bytes(s) for s in strings])
            return self.od(strings, scales, means)
        self.bn.forward, self.bn.compress, self.bn.decompress = f, c, d
        return self

    def __exit__(self, *a):
        del self.bn.forward, self.bn.compress, self.bn.decompress


def run_case(t, case):
    cfg, (h, w) = tuple(case["cfg"]), case["size"]
    wd, we, cl, c = cfg
    m = make(cfg, case["seed"])
    with torch.no_grad():
        if case["kind"] == "causal":
            causal(t, m, cfg, h, w)
        else:
            code(t, m, cfg, h, w)


def causal(t, m, cfg, h, w):
    wd, we, cl, c = cfg
    x = latent(1, c, h, w, 1)
    prevs = [m.process_previous_latent_q(latent(1, c, h, w, 5 + i).round()) for i in range(cl)]
    base = m(x, prevs)
    seqn = wd * wd
    ry, rx = reflect_index(h, wd), reflect_index(w, wd)
    nph, npw = len(ry) // wd, len(rx) // wd
    # token (patch, idx) -> source pixel
    src = {}
    for py in range(nph):
        for px in range(npw):
            for i in range(seqn):
                src[(py * npw + px, i)] = (ry[py * wd + i // wd], rx[px * wd + i % wd])
    t.check(tuple(base.features.shape) == (1, m.d_model, h, w), f"{cfg} {h}x{w}: features have shape {tuple(base.features.shape)}")
    t.check(base.perturbed_latent.shape == x.shape, f"{cfg} {h}x{w}: latent shape")
    t.check(tuple(base.bits.shape) == (nph * npw, seqn, c), f"{cfg} {h}x{w}: likelihood shape {tuple(base.bits.shape)}")
    moved = False
    perts = [(yy, xx, ch, d) for yy in range(h) for xx in range(w) for ch in range(c) for d in (7.0, -1.0, 400.0)]
    prevq = [p.quantized for p in prevs]

    def batched(xs):
        pb = [m.process_previous_latent_q(q.expand(len(xs), -1, -1, -1).contiguous()) for q in prevq]
        o = m(torch.cat(xs), pb)
        t.step(len(xs))
        return o.features, o.bits.reshape(len(xs), nph * npw, seqn, c)

    for part in core.chunks(perts, 120):
        xs = [x]
        for yy, xx, ch, d in part:
            x2 = x.clone()
            x2[0, ch, yy, xx] += d
            xs.append(x2)
        feats, bits = batched(xs)
        for n, (yy, xx, ch, d) in enumerate(part):
            df = (feats[n + 1] - feats[0]).abs().amax(dim=0)
            db = (bits[n + 1] - bits[0]).abs().amax(dim=-1)
            where = f"{cfg} {h}x{w}: pixel {(yy, xx)} channel {ch} += {d}"
            for (p, i), (sy, sx) in src.items():
                may = any(src[(p, j)] == (yy, xx) for j in range(i))
                own = src[(p, i)] == (yy, xx)
                py, px = divmod(p, npw)
                gy, gx = py * wd + i // wd, px * wd + i % wd
                if gy < h and gx < w:
                    if not may:
                        t.check(float(df[gy, gx]) <= 2e-5, f"{where}: features of token {(gy, gx)} changed by {float(df[gy, gx])}")
                    elif float(df[gy, gx]) > 1e-3:
                        moved = True
                if not may and not own:
                    t.check(float(db[p, i]) <= 2e-5, f"{where}: distribution of token {i} of patch {p} changed by {float(db[p, i])}")
            t.state(cfg, h, w, yy, xx, ch, d)
        if len(t.problems) > 5:
            return
    if wd > 1:
        t.check(moved, f"{cfg} {h}x{w}: no later token uses an earlier one (vacuous model)")
    # the distribution of a token does not depend on its own value: it sums to one over all values
    vals = torch.arange(-1600, 1601).float()
    for (yy, xx) in {(0, 0), (h - 1, w - 1), (min(1, h - 1), 0), (0, min(1, w - 1))}:
        for ch in range(c):
            tot = 0.0
            p = (yy // wd) * npw + xx // wd
            i = (yy % wd) * wd + xx % wd
            for part in core.chunks(vals, 400):
                xs = []
                for v in part:
                    x2 = x.clone()
                    x2[0, ch, yy, xx] = v
                    xs.append(x2)
                tot += float(batched(xs)[1][:, p, i, ch].double().sum())
            t.check(abs(tot - 1) < 1e-2, f"{cfg} {h}x{w}: likelihoods of all values of token {(yy, xx)} sum to {tot}")
    # histories shorter than the context are the oldest latent repeated
    for n in range(1, cl):
        short = prevs[:n]
        full = [short[0]] * (cl - n) + list(short)
        a, b = m(x, short), m(x, full)
        t.check(torch.equal(a.features, b.features) and torch.equal(a.bits, b.bits), f"{cfg}: {n} previous latents are not treated as the oldest repeated")
    # batch independence
    xb = torch.cat([x, latent(1, c, h, w, 3), x * -0.5])
    pb = [m.process_previous_latent_q(torch.cat([latent(1, c, h, w, 5 + i).round(), latent(1, c, h, w, 9 + i).round(), latent(1, c, h, w, 2 + i).round()])) for i in range(cl)]
    ob = m(xb, pb)
    t.check(torch.allclose(ob.features[:1], base.features, atol=1e-4) and torch.allclose(ob.bits[:nph * npw], base.bits, atol=1e-4)
            and torch.equal(ob.perturbed_latent[:1], base.perturbed_latent), f"{cfg} {h}x{w}: result of an item depends on its batch")


def code(t, m, cfg, h, w):
    wd, we, cl, c = cfg
    for n_prev in range(1, cl + 1):
        prevs = [m.process_previous_latent_q(latent(1, c, h, w, 5 + i).round()) for i in range(n_prev)]
        inputs = [latent(1, c, h, w, s) for s in range(3)] + [latent(1, c, h, w, 4).round() + 0.5, latent(1, c, h, w, 4) * 60]
        for xi, x in enumerate(inputs):
            ties = xi == 3
            tag = f"{cfg} {h}x{w} prev={n_prev} input={xi}"
            ev = m(x, prevs)
            x0 = x.clone()
            outs = []
            for rd in (False, True):
                with Spy(m.bottleneck) as spy:
                    ok, o = t.attempt(f"{tag} compress(run_decode={rd})", m.compress, latent_unquantized=x, previous_latents=prevs, run_decode=rd)
                if not ok:
                    return
                outs.append(o)
                nbytes = sum(len(s) for st in spy.strings for s in st)
                t.check(float(o.bits.reshape(-1)[0]) == 8 * nbytes and o.bits.numel() == 1, f"{tag}: reports {float(o.bits)} bits for {8 * nbytes}")
                t.check(o.perturbed_latent.shape == x.shape, f"{tag}: shape")
                if rd:
                    t.check(spy.dec == spy.strings, f"{tag}: the decoder did not consume exactly the produced strings in order")
            strings = spy.strings
            t.state(tag, strings)
            a, b = outs
            t.check(torch.equal(a.perturbed_latent, b.perturbed_latent), f"{tag}: latent differs with and without running the real decoder"
                    + (" (rounding ties)" if ties else ""))
            t.check(torch.equal(a.features, b.features) and torch.equal(a.bits, b.bits), f"{tag}: features/bits differ with and without running the decoder")
            t.check(bool(((a.perturbed_latent - x).abs() <= 0.5 + 1e-4).all()), f"{tag}: latent is not quantised to the nearest integer")
            t.check(bool((a.perturbed_latent == a.perturbed_latent.round()).all()), f"{tag}: coded latent is not integer")
            t.check(torch.equal(x, x0), f"{tag}: input modified")
            if not ties:
                t.check(torch.equal(ev.perturbed_latent, b.perturbed_latent), f"{tag}: evaluation pass quantises differently")
                t.check(torch.allclose(ev.features, b.features, atol=1e-4, rtol=1e-4), f"{tag}: features differ from the evaluation pass by {float((ev.features - b.features).abs().max())}")
            if h % wd == 0 and w % wd == 0 and not ties:
                got = independent_decode(t, m, cfg, h, w, prevs, strings)
                t.check(torch.equal(got, b.perturbed_latent), f"{tag}: token-by-token decoding without the encoder's statistics gives other values")
                t.trace()
    if wd * wd > 1:
        ok, _ = t.attempt(f"{cfg}: the model's own causality validation", m.compress, latent_unquantized=inputs[0].round(), previous_latents=prevs, validate_causal=True)


def independent_decode(t, m, cfg, h, w, prevs, strings):
    """Decoder built only from forward() predictions and the strings."""
    wd, we, cl, c = cfg
    cur = torch.zeros(1, c, h, w)
    npw = w // wd
    for i, st in enumerate(strings):
        with Spy(m.bottleneck) as spy:
            m(cur, prevs)
        sc, mu = spy.fw[-1]
        vals = m.bottleneck.decompress(list(st), sc[:, i, :].unsqueeze(0).contiguous(), mu[:, i, :].unsqueeze(0).contiguous())[0]
        t.step()
        for p in range(vals.shape[0]):
            cur[0, :, (p // npw) * wd + i // wd, (p % npw) * wd + i % wd] = vals[p]
    return cur


if __name__ == "__main__":
    core.main(sys.modules[__name__])
