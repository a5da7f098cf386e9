"""C10: vector quantisation, exhaustive over latent grids and call histories."""
import copy
import itertools
import math
import sys
import torch
from . import core

PID = "C10"
ASSUMPTIONS = ["float32 on CPU; among codewords at equal distance (within 1e-5) any is accepted", "statistics of an unused codebook (0/0) are not specified"]


def bounds(tier):
    return ("codebooks of 1..6 words (+33, 256) in 1..3 dimensions, 5 codebook families, normalised and raw; every latent of the 9-point-per-axis grid; all layouts batch<=3, height/width<=4; "
            "all histories of length <= %d over forward/reset/statistics/mode/state-dict" % (4 if tier == "quick" else 6))


GRID = [-2.0, -1.0, -0.5, -0.25, 0.0, 0.125, 0.5, 1.0, 1.75]


def book(fam, n, d):
    i = torch.arange(n).view(n, 1).float()
    j = torch.arange(d).view(1, d).float()
    if fam == "ramp":
        return i - (n - 1) / 2 + 0.25 * j * (i + 1)
    if fam == "circle":
        return torch.cos(i * 2 * math.pi / max(n, 1) + j * 1.3)
    if fam == "dup":
        return ((i // 2) - 1) + j * 0.5
    if fam == "tiny":
        return (i + 1) * 1e-3 * (-1) ** (i + j)
    if fam == "big":
        return (i * 3.1 - 5) * 10 + j
    raise KeyError(fam)


FAMS = ["ramp", "circle", "dup", "tiny", "big"]


def cases(tier):
    for d in (1, 2, 3):
        for n in (1, 2, 3, 4, 5, 6, 33, 256):
            for norm in (True, False):
                yield {"kind": "nearest", "n": n, "d": d, "norm": norm}
    for d in (1, 2, 3):
        yield {"kind": "layout", "d": d}
    for n in (1, 2, 3, 5, 8, 16, 100, 256, 1024, 8192):
        yield {"kind": "cost", "n": n}
    for first in OPS:
        yield {"kind": "history", "first": first, "depth": 4 if tier == "quick" else 6}
    yield {"kind": "wrap"}
    yield {"kind": "multi"}
    yield {"kind": "reject"}


OPS = ["fA", "fB", "fC", "reset", "stats", "train", "eval", "reload", "copy"]


def out(lat):
    from neuralcompression import VqVaeAutoencoderOutput
    return VqVaeAutoencoderOutput(latent=lat)


def make(n, d, fam="ramp", norm=True):
    from neuralcompression.layers import VQBottleneck
    torch.manual_seed(0)
    b = VQBottleneck(n, d)
    b.normalize_codebook = norm
    with torch.no_grad():
        b.codebooks[0].copy_(book(fam, n, d))
    return b


def words(b):
    c = b.codebooks[0].detach().double()
    if b.normalize_codebook:
        c = c / c.norm(dim=1, keepdim=True).clamp_min(1e-12)
    return c


def verify(t, b, lat, r, tag):
    """Nearest codeword, index order, layout."""
    n, d = b.codebooks[0].shape
    B, D, H, W = lat.shape
    c = words(b)
    flat = lat.detach().double().permute(0, 2, 3, 1).reshape(-1, D)
    dist = ((flat[:, None, :] - c[None]) ** 2).sum(-1)
    best = dist.min(1).values
    idx = r.indices
    if not t.check(idx is not None and idx.reshape(-1).shape == (B * H * W,), f"{tag}: {None if idx is None else tuple(idx.shape)} indices"):
        return
    idx = idx.reshape(-1).long()
    if not t.check(bool(((idx >= 0) & (idx < n)).all()), f"{tag}: index outside the codebook"):
        return
    got = dist[torch.arange(len(idx)), idx]
    bad = (got > best + 1e-5 * (1 + best)).nonzero()
    if not t.check(bad.numel() == 0, f"{tag}: a codeword that is not nearest was chosen"):
        i = int(bad[0])
        t.problems[-1]["info"] = dict(vector=flat[i].tolist(), chosen=int(idx[i]), dist=float(got[i]), best=float(best[i]))
    want = c[idx].view(B, H, W, D).permute(0, 3, 1, 2)
    tol = 1e-5 * (1 + lat.detach().abs().max() + c.abs().max())
    t.check(r.latent.shape == lat.shape and bool(((r.latent.detach().double() - want).abs() <= tol).all()), f"{tag}: output is not the codeword named by the index at that position")
    mse = float(((want - lat.detach().double()) ** 2).mean())
    for nm in ("commitment_loss", "embedding_loss"):
        t.check(abs(float(getattr(r, nm).detach()) - mse) <= 1e-5 * (1 + mse), f"{tag}: {nm} is not the mean squared quantisation error")
    t.check(r.prequantized_latent is not None and torch.equal(r.prequantized_latent.detach(), lat.detach()), f"{tag}: prequantised latent")
    if t.check(r.quantize_distances is not None, f"{tag}: the distances to the codewords are missing"):
        t.check(tuple(r.quantize_distances.shape) == (B * H * W, n) and bool(((r.quantize_distances.detach().double() - dist).abs() <= 1e-4 * (1 + dist)).all()), f"{tag}: distances")
    return idx


def grads(t, b, lat, tag):
    x = lat.clone().requires_grad_(True)
    b.codebooks[0].grad = None
    r = b(out(x))
    w = (torch.arange(x.numel()).view_as(x).float() % 7 - 3)
    (r.latent * w).sum().backward(retain_graph=True)
    t.check(torch.equal(x.grad, w), f"{tag}: gradient is not passed straight through")
    g = b.codebooks[0].grad
    t.check(g is None or float(g.abs().max()) == 0, f"{tag}: reconstruction gradient reaches the codebook")
    x.grad = None
    b.codebooks[0].grad = None
    r.commitment_loss.backward(retain_graph=True)
    q = words(b)[r.indices.reshape(-1)].view(x.shape[0], x.shape[2], x.shape[3], -1).permute(0, 3, 1, 2)
    want = 2 * (x.detach().double() - q) / x.numel()
    t.check(x.grad is not None and bool(((x.grad.double() - want).abs() <= 1e-5 * (1 + want.abs())).all()), f"{tag}: commitment loss gradient")
    g = b.codebooks[0].grad
    t.check(g is None or float(g.abs().max()) == 0, f"{tag}: commitment loss moves the codebook")
    x.grad = None
    b.codebooks[0].grad = None
    r.embedding_loss.backward()
    t.check(x.grad is None or float(x.grad.abs().max()) == 0, f"{tag}: embedding loss moves the encoder")
    g = b.codebooks[0].grad
    if not b.normalize_codebook:
        wantc = torch.zeros_like(words(b))
        flat = (-want).permute(0, 2, 3, 1).reshape(-1, q.shape[1])
        wantc.index_add_(0, r.indices.reshape(-1), flat)
        t.check(g is not None and bool(((g.double() - wantc).abs() <= 1e-4 * (1 + wantc.abs())).all()), f"{tag}: embedding loss gradient")
    else:
        t.check(g is not None and bool(torch.isfinite(g).all()), f"{tag}: embedding loss gives no codebook gradient")
        unused = torch.ones(g.shape[0], dtype=torch.bool)
        unused[r.indices.reshape(-1)] = False
        t.check(float(g[unused].abs().sum()) == 0, f"{tag}: unused codeword receives a gradient")


def hits(b, lvl=0):
    return getattr(b, f"codebook_hits_{lvl}").clone()


def run_case(t, case):
    k = case["kind"]
    if k == "nearest":
        n, d = case["n"], case["d"]
        pts = list(itertools.product(GRID, repeat=d))
        for fam in FAMS:
            b = make(n, d, fam, case["norm"])
            tag = f"{n} words, {d} dims, {fam}, normalise={case['norm']}"
            W = 9
            lat = torch.tensor(pts).view(1, -1, W, d).permute(0, 3, 1, 2).contiguous()
            keep, cb = lat.clone(), b.codebooks[0].detach().clone()
            ok, r = t.attempt(tag, b, out(lat))
            if not ok:
                return
            idx = verify(t, b, lat, r, tag)
            t.check(torch.equal(lat, keep) and torch.equal(cb, b.codebooks[0].detach()), f"{tag}: input or codebook modified")
            if idx is not None:
                t.check(torch.equal(hits(b), torch.bincount(idx, minlength=n)), f"{tag}: usage counters differ from the chosen indices")
            grads(t, b, lat, tag)
            for p in pts:
                t.state(n, d, fam, case["norm"], p)
            # one vector at a time gives the same codewords
            if n <= 6 and d <= 2:
                for i, p in enumerate(pts):
                    r1 = b(out(torch.tensor(p).view(1, d, 1, 1)))
                    t.step()
                    t.check(int(r1.indices.reshape(-1)[0]) == int(r.indices.reshape(-1)[i]), f"{tag}: index of {p} depends on the other positions")
    elif k == "layout":
        d = case["d"]
        for B, H, W in itertools.product((1, 2, 3), (1, 2, 3, 4), (1, 2, 3, 4)):
            b = make(7, d, "circle")
            n = B * H * W * d
            for layout in ("contig", "perm", "strided"):
                i = torch.arange(n).float()
                v = (i * 0.37) % 2.3 - 1.1
                if layout == "contig":
                    lat = v.view(B, d, H, W)
                elif layout == "perm":
                    lat = v.view(B, H, W, d).permute(0, 3, 1, 2)
                else:
                    lat = torch.stack([v, -v]).view(2, B, d, W, H).transpose(3, 4)[1]
                tag = f"layout {layout} {B}x{d}x{H}x{W}"
                ok, r = t.attempt(tag, b, out(lat))
                if ok:
                    verify(t, b, lat, r, tag)
                    grads(t, b, lat.clone(), tag)
                t.state(tag)
    elif k == "cost":
        b = make(case["n"], 2, "circle")
        for B, H, W in itertools.product((1, 2, 3), (1, 2, 3, 5, 8), (1, 2, 4, 7)):
            r = b(out(torch.zeros(B, 2, H, W)))
            exact = B * H * W * math.log2(case["n"]) / 8
            t.step()
            t.state("cost", case["n"], B, H, W)
            t.check(isinstance(r.num_bytes, int) and exact - 1 < r.num_bytes <= exact + 1e-9, f"{case['n']} words, {B}x{H}x{W}: reported {r.num_bytes} bytes, {exact} are needed")
    elif k == "history":
        history(t, case)
    elif k == "wrap":
        from neuralcompression.layers import NormalizeLatent, ProjectLatent
        for fam in ("circle", "ramp"):
            for cin, d in itertools.product((2, 3), (2, 3)):
                vq = make(6, d, fam)
                torch.manual_seed(1)
                m = ProjectLatent(cin, d, NormalizeLatent(vq))
                x = ((torch.arange(2 * cin * 12).float() * 0.61) % 3 - 1.4).view(2, cin, 3, 4)
                r = m(out(x.clone()))
                z = m.input_conv(x)
                zn = z / z.norm(dim=1, keepdim=True).clamp_min(1e-12)
                t.check(torch.allclose(r.prequantized_latent, zn, atol=1e-6), "latent is not normalised to the unit sphere before quantisation")
                q = words(vq)[r.indices.reshape(-1)].view(2, 3, 4, d).permute(0, 3, 1, 2).float()
                t.check(torch.allclose(r.latent, m.output_conv(q), atol=1e-5), "projected codewords")
                dist = ((zn.permute(0, 2, 3, 1).reshape(-1, 1, d) - words(vq).float()) ** 2).sum(-1)
                t.check(bool((dist[torch.arange(24), r.indices.reshape(-1)] <= dist.min(1).values + 1e-5).all()), "index of the projected latent")
                t.check(torch.allclose(NormalizeLatent()(out(z)).latent, zn, atol=1e-6), "normalisation alone")
                p = ProjectLatent(cin, d)
                t.check(torch.allclose(p(out(x.clone())).latent, p.output_conv(p.input_conv(x)), atol=1e-6), "projection alone")
                for mod in (m, p):  # every position on its own, at its own place
                    y = mod(out(x.clone())).latent
                    if t.check(y.shape == x.shape, f"projection of {tuple(x.shape)} gives {tuple(y.shape)}"):
                        z = mod(out(x.flip(2).transpose(2, 3).contiguous())).latent
                        t.check(torch.allclose(z, y.flip(2).transpose(2, 3), atol=1e-6), "projection mixes positions")
                t.state(fam, cin, d)
                t.step(4)
    elif k == "multi":
        from neuralcompression.layers import VQBottleneck
        from neuralcompression.layers._q_bottleneck import QBottleneck
        for norm in (True, False):
            q = QBottleneck([3, 5, 1], [2, 1, 3], normalize_codebook=norm)
            for lvl, (n, d) in enumerate(((3, 2), (5, 1), (1, 3))):
                t.check(q.codebooks[lvl].shape == (n, d), "codebook shape")
                with torch.no_grad():
                    q.codebooks[lvl].copy_(book("circle", n, d))
            for seq in itertools.product((0, 1, 2, "reset"), repeat=4):
                q.reset_hits()
                model = [torch.zeros(n, dtype=torch.long) for n in (3, 5, 1)]
                for op in seq:
                    if op == "reset":
                        q.reset_hits()
                        model = [m * 0 for m in model]
                    else:
                        add = torch.arange(len(model[op])) + 1
                        getattr(q, f"codebook_hits_{op}").add_(add)
                        model[op] = model[op] + add
                    t.step()
                for lvl in range(3):
                    t.check(torch.equal(hits(q, lvl), model[lvl]), f"history {seq}: counters of level {lvl}")
                if all(int(m.sum()) for m in model):
                    q.update_metrics()
                    for lvl in range(3):
                        stats(t, q, lvl, model[lvl], f"{seq}")
                t.state(norm, seq)
        for dist, lo, hi in (("uniform", None, None), ("normal", None, None)):
            b = VQBottleneck(20, 4, dist)
            t.check(b.codebooks[0].shape == (20, 4) and bool(torch.isfinite(b.codebooks[0]).all()), "initial codebook")
    elif k == "reject":
        from neuralcompression.layers import NormalizeLatent, VQBottleneck
        t.must_raise("unknown initialisation", ValueError, VQBottleneck, 4, 2, "cauchy")
        t.must_raise("no latent", ValueError, make(3, 2), out(None))
        t.must_raise("no latent to normalise", ValueError, NormalizeLatent(), out(None))
        t.must_raise("latent of another width", (RuntimeError, ValueError), make(3, 2), out(torch.zeros(1, 3, 2, 2)))
        t.state("reject")


def stats(t, b, lvl, h, tag):
    tot = float(h.sum())
    t.check(abs(float(b.percentage_hits[lvl]) - float((h != 0).double().mean())) < 1e-6, f"{tag}: fraction of used codewords")
    t.check(float(b.max_hits[lvl]) == float(h.max()), f"{tag}: maximal count")
    p = [float(v) / tot for v in h if v > 0]
    perp = 2 ** (-sum(v * math.log2(v) for v in p))
    t.check(abs(float(b.perplexities[lvl]) - perp) <= 1e-3 * perp, f"{tag}: perplexity {float(b.perplexities[lvl])}, expected {perp}")


def history(t, case):
    base = make(5, 2, "circle")
    i = torch.arange(60).float()
    data = {"A": ((i[:24] * 0.83) % 2.9 - 1.3).view(2, 2, 2, 3), "B": ((i[:4] * 1.7) % 2.1 - 1).view(1, 2, 1, 2), "C": torch.full((1, 2, 3, 3), 0.4)}
    ref = {k: torch.bincount(base(out(v)).indices.reshape(-1), minlength=5) for k, v in data.items()}
    base = make(5, 2, "circle")
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        seq = (case["first"],) + rest
        b = copy.deepcopy(base)
        model = torch.zeros(5, dtype=torch.long)
        for op in seq:
            t.step()
            try:
                if op[0] == "f":
                    r = b(out(data[op[1]]))
                    model = model + ref[op[1]]
                    t.check(torch.equal(torch.bincount(r.indices.reshape(-1), minlength=5), ref[op[1]]), f"history {seq}: choice depends on earlier calls")
                elif op == "reset":
                    b.reset_hits()
                    model = model * 0
                elif op == "stats":
                    b.update_metrics()
                    if int(model.sum()):
                        stats(t, b, 0, model, f"history {seq}")
                elif op in ("train", "eval"):
                    b.train(op == "train")
                elif op == "reload":
                    c = make(5, 2, "ramp")
                    c.load_state_dict(b.state_dict())
                    b = c
                elif op == "copy":
                    b = copy.deepcopy(b)
            except Exception as e:  # noqa: BLE001
                t.fail(f"history {seq}: {op} raised {type(e).__name__}: {e}")
                return
            t.check(torch.equal(hits(b), model), f"history {seq} after {op}: counters {hits(b).tolist()}, expected {model.tolist()}")
        t.state(seq)
        t.trace()
        if len(t.problems) > 4:
            return


if __name__ == "__main__":
    core.main(sys.modules[__name__])
