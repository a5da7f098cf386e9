"""C11: VQ-VAE autoencoder sizes/freezing, label projector, XCA layer."""
import copy
import itertools
import sys
import torch
import torch.nn as nn
import torch.nn.functional as F
from . import core

PID = "C11"
ASSUMPTIONS = ["32 channels instead of 128, random weights; tolerance 1e-5 relative", "reflection padding needs sizes larger than the padding (torch)",
               "train/eval calls on the projector or a module containing it; between a train() of the autoencoder it was built from and the next train/eval call on the projector nothing is claimed"]


def bounds(tier):
    m = 10 if tier == "quick" else 18
    return f"factor 1/2/4/8 models, all sizes up to {m}x{m} (smaller sides only where torch can pad), batch 1..2, 3 norm types, with/without bottleneck; all train/eval/forward histories of length <= {5 if tier == 'quick' else 7}"


CFG = {  # name: (ch_mult, res blocks, attn, conv, norm)
    "f1": ((1,), 1, [16], True, "group"), "f2": ((1, 2), 1, [16], True, "channel"), "f4": ((1, 1, 2), 1, [8], True, "group"),
    "f4avg": ((1, 1, 1), 1, [16], False, "channel_last"), "f8": ((1, 1, 1, 1), 1, [4], True, "group"),
}


def bottleneck(dim=4, n=6):
    from neuralcompression.layers import NormalizeLatent, ProjectLatent, VQBottleneck
    return ProjectLatent(dim, 2, NormalizeLatent(VQBottleneck(n, 2, "normal")))


def make(name, bn=True, fe=False, fb=False, dropout=0.0, **kw):
    from neuralcompression.models import VqVaeXCiTAutoencoder
    cm, nb, at, conv, norm = CFG[name]
    torch.manual_seed(3)
    m = VqVaeXCiTAutoencoder(ch=32, ch_mult=cm, num_res_blocks=nb, attn_resolutions=at, resamp_with_conv=conv, resolution=32, embed_dim=4,
                             norm_type=norm, dropout=dropout, bottleneck_op=bottleneck() if bn else None, freeze_encoder=fe, freeze_bottleneck=fb, **kw)
    return m


def img(b, h, w, c=3, s=0):
    i = torch.arange(b * c * h * w).view(b, c, h, w)
    y = torch.arange(h).view(h, 1)
    return ((i * 37 + y * 11 + s * 5 + (i * i) % 13) % 101).float() / 100


def cases(tier):
    mx = 10 if tier == "quick" else 18
    for name in CFG:
        f = 2 ** (len(CFG[name][0]) - 1)
        lim = mx if f < 8 else mx + 6
        for h in range(1, lim + 1):
            if (-h) % f < h:
                yield {"kind": "size", "cfg": name, "h": h, "lim": lim, "bn": h % 2 == 0 or tier != "quick"}
    for fe, fb in itertools.product((0, 1), (0, 1)):
        for first in OPS:
            yield {"kind": "history", "fe": fe, "fb": fb, "first": first, "depth": 4 if tier == "quick" else 6}
    for first in POPS:
        yield {"kind": "projector", "first": first, "depth": 4 if tier == "quick" else 6}
    for name in CFG:
        yield {"kind": "labels", "cfg": name}
    for heads in (1, 2, 4):
        yield {"kind": "xca", "heads": heads}
    yield {"kind": "channels"}


OPS = ["train", "eval", "enc.train", "bn.train", "fwd", "step", "params.grad"]
POPS = ["train", "train0", "eval", "parent.train", "parent.eval", "fwd", "child.fwd", "source.train"]


def close(a, b, tol=1e-6):
    return a.shape == b.shape and bool(torch.allclose(a, b, atol=tol, rtol=1e-6 if a.dtype == torch.float64 else 1e-4))


def run_case(t, case):
    k = case["kind"]
    torch.set_grad_enabled(k in ("history",))
    if k == "size":
        name, h = case["cfg"], case["h"]
        m = make(name, case["bn"]).eval().double()  # double: rounding noise is not a dependency
        f = 2 ** (len(CFG[name][0]) - 1)
        sd = {n: p.clone() for n, p in m.named_parameters()}
        for w in range(1, case["lim"] + 1):
            if (-w) % f >= w:
                continue
            x = img(2, h, w).double()
            tag = f"{name} {h}x{w}"
            keep = x.clone()
            ok, o = t.attempt(tag, m, x)
            if not ok:
                return
            t.check(tuple(o.image.shape) == (2, 3, h, w), f"{tag}: image of size {tuple(o.image.shape)}")
            t.check(torch.equal(x, keep), f"{tag}: input modified")
            xp = F.pad(x, (0, -w % f, 0, -h % f), mode="reflect") if (w % f or h % f) else x
            op = m(xp)
            t.check(close(o.image, op.image[..., :h, :w]), f"{tag}: result is not the top-left part of the padded image's")
            t.check(tuple(o.latent.shape) == (2, 4, xp.shape[2] // f, xp.shape[3] // f), f"{tag}: latent {tuple(o.latent.shape)}")
            lat = m.encoder(xp)
            if case["bn"]:
                t.check(torch.equal(o.indices, op.indices) and o.indices.numel() == 2 * xp.shape[2] * xp.shape[3] // f // f, f"{tag}: indices")
            else:
                t.check(close(o.latent, lat), f"{tag}: latent is not the encoder's")
            t.check(close(m.decoder(o.latent)[..., :h, :w], o.image), f"{tag}: image is not the decoded latent")
            for b in (0, 1):
                ob = m(x[b:b + 1])
                t.check(close(ob.image, o.image[b:b + 1]), f"{tag}: image {b} depends on its batch")
            t.check(torch.equal(m(x).image, o.image), f"{tag}: second evaluation differs")
            t.step(5)
            t.state(tag, case["bn"])
            if h % f == 0 and w % f == 0:
                m.train()
                ot = m(x)
                m.eval()
                t.check(close(ot.image, o.image), f"{tag}: training and evaluation passes differ without dropout")
            t.outcome(o.image)
        for n, p in m.named_parameters():
            t.check(torch.equal(p, sd[n]), f"{case}: parameter {n} changed by evaluation")
    elif k == "history":
        history(t, case)
    elif k == "projector":
        projector(t, case)
    elif k == "labels":
        labels(t, case)
    elif k == "xca":
        xca(t, case["heads"])
    else:
        from neuralcompression.models import VqVaeXCiTAutoencoder
        for ci, co in itertools.product((1, 2, 4), (1, 3, 5)):
            m = make("f2", out_ch=co, in_channels=ci).eval()
            o = m(img(1, 5, 6, ci))
            t.check(tuple(o.image.shape) == (1, co, 5, 6), f"in={ci} out={co}: {tuple(o.image.shape)}")
            t.state("ch", ci, co)
            t.step()
        t.must_raise("unknown norm", ValueError, VqVaeXCiTAutoencoder, ch=16, norm_type="batch")
        from neuralcompression.models import VqVaeProjector
        t.must_raise("projector without quantiser", (AssertionError, ValueError), VqVaeProjector, make("f2", bn=False))


def frozen_ok(t, mod, name, tag):
    t.check(all(not q.training for q in mod.modules()), f"{tag}: frozen {name} runs in training mode")
    t.check(all(not p.requires_grad for p in mod.parameters()), f"{tag}: frozen {name} has trainable parameters")


def history(t, case):
    fe, fb = case["fe"], case["fb"]
    base = make("f2", True, bool(fe), bool(fb), dropout=0.5)
    # as constructed
    if fe:
        frozen_ok(t, base.encoder, "encoder", f"{case} constructed")
    else:
        t.check(all(p.requires_grad for p in base.encoder.parameters()), f"{case}: encoder frozen without being asked")
    if fb:
        frozen_ok(t, base.bottleneck_op, "bottleneck", f"{case} constructed")
    else:
        t.check(all(p.requires_grad for p in base.bottleneck_op.parameters()), f"{case}: bottleneck frozen without being asked")
    t.check(all(p.requires_grad for p in base.decoder.parameters()), f"{case}: decoder frozen")
    x = img(1, 4, 6)
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        seq = (case["first"],) + rest
        if seq[-1] not in ("fwd", "step"):
            continue
        m = copy.deepcopy(base)
        ran = []
        for nm, mod in (("encoder", m.encoder), ("bottleneck", m.bottleneck_op), ("decoder", m.decoder)):
            mod.register_forward_pre_hook(lambda mod_, a, nm=nm: ran.append((nm, {q.training for q in mod_.modules()}, {p.requires_grad for p in mod_.parameters()})))
        enc, bn, dec = True, True, True  # what the last train/eval call asked for
        for op in seq:
            t.step()
            if op == "train":
                m.train(); enc = bn = dec = True
            elif op == "eval":
                m.eval(); enc = bn = dec = False
            elif op == "enc.train":
                m.encoder.train(); enc = True
            elif op == "bn.train":
                m.bottleneck_op.train(); bn = True
            elif op == "params.grad":
                for p in m.parameters():
                    p.requires_grad_(True)
            else:
                ran.clear()
                before = {n: p.detach().clone() for n, p in m.named_parameters()}
                o = m(x)
                for nm, tr, rg in ran:
                    fro = (nm == "encoder" and fe) or (nm == "bottleneck" and fb)
                    if fro:
                        t.check(tr == {False}, f"{case} {seq}: frozen {nm} runs in training mode")
                        t.check(rg == {False}, f"{case} {seq}: frozen {nm} still trainable in the forward pass")
                    else:
                        want = {"encoder": enc, "bottleneck": bn, "decoder": dec}[nm]
                        t.check(tr == {want}, f"{case} {seq}: {nm} runs in mode {tr}, last call asked for {want}")
                        t.check(rg == {True}, f"{case} {seq}: {nm} was frozen")
                t.check([r[0] for r in ran] == ["encoder", "bottleneck", "decoder"], f"{case} {seq}: parts run {[r[0] for r in ran]}")
                if op == "step":
                    loss = o.image.pow(2).sum() + o.commitment_loss + o.embedding_loss
                    loss.backward()
                    opt = torch.optim.SGD([p for p in m.parameters() if p.requires_grad], lr=0.01)
                    opt.step()
                    opt.zero_grad()
                    ch = {n.split(".")[0] for n, p in m.named_parameters() if not torch.equal(p.detach(), before[n])}
                    t.check(("encoder" in ch) == (not fe) and ("bottleneck_op" in ch) == (not fb) and "decoder" in ch, f"{case} {seq}: a training step changed {sorted(ch)}")
        t.state(fe, fb, seq)
        t.trace()
        if len(t.problems) > 4:
            return


def projector(t, case):
    from neuralcompression.models import VqVaeProjector
    base = make("f2", True, dropout=0.5)
    x = img(1, 4, 6)
    for rest in itertools.product(POPS, repeat=case["depth"] - 1):
        seq = (case["first"],) + rest
        m = copy.deepcopy(base)
        m.train()
        p = VqVaeProjector(m)
        gold = copy.deepcopy(m).eval()(x).indices.reshape(-1)
        parent = nn.Sequential(p, nn.Identity())
        dirty = False   # the source model switched its shared parts; the next mode call on the projector undoes it
        for op in seq:
            t.step()
            if dirty and op in ("fwd", "child.fwd"):
                continue
            dirty = op == "source.train"
            if dirty:
                m.train()
                continue
            if op == "train":
                r = p.train()
                t.check(r is p, f"{seq}: train() does not return the module")
            elif op == "train0":
                p.train(False)
            elif op == "eval":
                p.eval()
            elif op == "parent.train":
                parent.train()
            elif op == "parent.eval":
                parent.eval()
            elif op == "fwd":
                t.check(torch.equal(p(x).reshape(-1), gold), f"{seq}: labels differ from the model's evaluation-mode indices")
            else:
                t.check(torch.equal(parent(x).reshape(-1), gold), f"{seq}: labels through a parent differ")
            t.check(all(not q.training for q in p.modules()), f"{seq} after {op}: projector in training mode")
            t.check(all(not q.requires_grad for q in p.parameters()) and len(list(p.parameters())) > 0, f"{seq} after {op}: projector exposes a trainable parameter")
        t.state(seq)
        t.trace()
        if len(t.problems) > 4:
            return


def labels(t, case):
    from neuralcompression.models import VqVaeProjector
    name = case["cfg"]
    f = 2 ** (len(CFG[name][0]) - 1)
    m = make(name, True).double()
    p = VqVaeProjector(m)
    m.eval()
    codes = set()
    for b, a, c in itertools.product((1, 2), (1, 2, 3, 4), (1, 2, 3, 4)):
        x = img(b, a * f, c * f, s=a).double()
        ok, lab = t.attempt(f"{name} labels {b}x{a}x{c}", p, x)
        if not ok:
            return
        o = m(x)
        tag = f"{name} batch {b} latent {a}x{c}"
        t.check(lab.numel() == b * a * c and torch.equal(lab.reshape(-1), o.indices.reshape(-1)), f"{tag}: labels are not the model's indices")
        # raster order, from the pre-quantised latent itself
        z = o.prequantized_latent.permute(0, 2, 3, 1).reshape(-1, 1, 2)
        cb = F.normalize(m.bottleneck_op.child.child.codebooks[0], dim=1)
        d = ((z - cb) ** 2).sum(-1)
        t.check(bool((d[torch.arange(len(d)), lab.reshape(-1)] <= d.min(1).values + 1e-5).all()), f"{tag}: labels are not in raster order")
        for i in range(b):
            t.check(torch.equal(p(x[i:i + 1]).reshape(-1), lab.reshape(b, -1)[i]), f"{tag}: labels of image {i} depend on the batch")
        codes |= set(lab.reshape(-1).tolist())
        t.state(tag)
        t.step(2)
    t.outcome(name, len(codes))


def xca(t, heads):
    from neuralcompression.layers import XCA
    for B, N, cph, bias in itertools.product((1, 2), (1, 2, 3, 5), (1, 2, 3), (False, True)):
        C = heads * cph
        torch.manual_seed(C + N)
        m = XCA(C, heads, bias).eval()
        with torch.no_grad():
            m.temperature.copy_(torch.arange(heads).view(heads, 1, 1) * 0.7 + 0.6)
        x = ((torch.arange(B * N * C).float() * 0.71) % 2.9 - 1.4).view(B, N, C)
        y = m(x)
        tag = f"XCA heads={heads} B={B} N={N} C={C}"
        q, k, v = F.linear(x, m.qkv.weight, m.qkv.bias).double().split(C, dim=-1)
        outs = []
        for h in range(heads):
            s = slice(h * cph, (h + 1) * cph)
            qn = q[..., s] / q[..., s].norm(dim=1, keepdim=True).clamp_min(1e-12)
            kn = k[..., s] / k[..., s].norm(dim=1, keepdim=True).clamp_min(1e-12)
            a = torch.softmax(torch.einsum("bnc,bnd->bcd", qn, kn) * float(m.temperature[h]), -1)
            outs.append(torch.einsum("bcd,bnd->bnc", a, v[..., s]))
        want = F.linear(torch.cat(outs, -1).float(), m.proj.weight, m.proj.bias)
        t.check(close(y, want, 1e-4), f"{tag}: differs from the definition")
        for perm in itertools.permutations(range(N)) if N <= 3 else [tuple(range(N))[::-1]]:
            t.check(close(m(x[:, list(perm)]), y[:, list(perm)], 1e-4), f"{tag}: not equivariant under token permutation {perm}")
        for b in range(B):
            t.check(close(m(x[b:b + 1]), y[b:b + 1], 1e-4), f"{tag}: depends on the batch")
        t.state(tag, bias)
        t.step()


if __name__ == "__main__":
    core.main(sys.modules[__name__])
