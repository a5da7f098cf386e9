"""C29: GAN losses against their cross-entropy definition on complete logit/label lattices; discriminators over configurations and sizes."""
import itertools
import math
import sys
import torch
from . import core

PID = "C29"
ASSUMPTIONS = ["logits are finite; comparisons allow single-precision rounding of the library's log-sum-exp", "discriminator inputs have sides divisible by the total downsampling of the network"]
LG = [-60.0, -3.0, -0.5, 0.0, 1.0, 4.0, 60.0]


def bounds(tier):
    return ("binary losses: all logit vectors of length 1..%d over %d values x target forms (scalar, full, soft) x 7 shapes x 2 dtypes; categorical losses: all logits of 2-3 classes x all label maps of 1-2 pixels, all ordered moves of one logit, "
            "label maps of every layout, all shape/rank/type mismatches; discriminators: 1..4 levels x every output factor x 4 norms x conditional or not x sizes x batches" % (3 if tier == "quick" else 4, len(LG)))


def cases(tier):
    q = tier == "quick"
    for a in range(len(LG)):
        for dt in ("float32", "float64"):
            yield {"kind": "bce", "a": a, "n": 3 if q else 4, "dt": dt}
            for k in (2, 3):
                yield {"kind": "ce", "a": a, "k": k, "dt": dt, "full": not q}
    yield {"kind": "bceshape"}
    yield {"kind": "ceshape"}
    for levels in (1, 2, 3, 4):
        for norm in ("identity", "spectral", "instance", "batch"):
            for cond in (0, 1):
                yield {"kind": "disc", "levels": levels, "norm": norm, "cond": cond, "big": not q}
    for norm in ("identity", "spectral", "instance", "batch"):
        yield {"kind": "default", "norm": norm, "factors": [1, 2, 16] if q else [1, 2, 4, 8, 16, 32, 64], "cond": 0}
    yield {"kind": "default", "norm": "identity", "factors": [8, 64] if q else [1, 2, 4, 8, 16, 32, 64], "cond": 1}
    yield {"kind": "reject"}


def sp(x):
    """log(1 + e^x), accurately."""
    return max(x, 0.0) + math.log1p(math.exp(-abs(x)))


def ce(row, j):
    m = max(row)
    return m + math.log(sum(math.exp(v - m) for v in row)) - row[j]


def close(t, got, want, what, dt="float32"):
    got = float(got)
    tol = (4e-6 if dt == "float32" else 1e-10) * max(1.0, abs(want))
    t.check(abs(got - want) <= tol, f"{what}: {got}, definition gives {want}")


def run_bce(t, case):
    from neuralcompression.loss_fn import BinaryCrossentropyDiscriminatorLoss, BinaryCrossentropyGeneratorLoss
    D, G = BinaryCrossentropyDiscriminatorLoss(), BinaryCrossentropyGeneratorLoss()
    dt = getattr(torch, case["dt"])
    for n in range(1, case["n"] + 1):
        for rest in itertools.product(LG, repeat=n - 1):
            r = (LG[case["a"]],) + rest
            lr = torch.tensor(r, dtype=dt)
            for target in ("scalar", "scalar0", "full", "soft"):
                tg = {"scalar": torch.tensor(1), "scalar0": torch.tensor(0.0, dtype=dt), "full": torch.ones_like(lr), "soft": torch.tensor([0.0, 0.25, 1.0, 0.9][:n], dtype=dt)}[target]
                tv = {"scalar": [1.0] * n, "scalar0": [0.0] * n, "full": [1.0] * n, "soft": [0.0, 0.25, 1.0, 0.9][:n]}[target]
                want = sum(y * sp(-x) + (1 - y) * sp(x) for x, y in zip(r, tv)) / n
                ok, g = t.attempt(f"generator {r} {target}", G, lr, tg)
                if ok:
                    close(t, g, want, f"generator loss of {r}, target {target}", case["dt"])
                    t.check(g.ndim == 0 and float(g) >= 0, f"generator loss of {r}: {g}")
                for f in (LG if n == 1 else [(v,) * n for v in (-60.0, 0.0, 4.0)] + [tuple(reversed(r))]):
                    f = (f,) if n == 1 else f
                    lf = torch.tensor(f, dtype=dt)
                    ok, d = t.attempt(f"discriminator {r} {f} {target}", D, lr, lf, tg)
                    if ok:
                        close(t, d, 0.5 * (want + sum(sp(x) for x in f) / n), f"discriminator loss of real {r}, fake {f}, target {target}", case["dt"])
                    t.state(r, f, target)
                t.trace()
            # moving a logit toward its target lowers the losses, and gradients agree
            x = lr.clone().requires_grad_()
            G(x, torch.tensor(1)).backward()
            t.check(bool((x.grad <= 0).all()) and all(abs(float(g) + 1 / (1 + math.exp(min(v, 700.0))) / n) < 1e-5 for g, v in zip(x.grad, r)), f"generator gradient at {r}: {x.grad.tolist()}")
            x, f = lr.clone().requires_grad_(), lr.clone().requires_grad_()
            D(x, f, torch.tensor(1)).backward()
            t.check(bool((x.grad <= 0).all()) and bool((f.grad >= 0).all()), f"discriminator gradients at {r} have the wrong sign")
            t.step()


def run_bceshape(t, case):
    from neuralcompression.loss_fn import BinaryCrossentropyDiscriminatorLoss, BinaryCrossentropyGeneratorLoss
    D, G = BinaryCrossentropyDiscriminatorLoss(), BinaryCrossentropyGeneratorLoss()
    shapes = [(1,), (3,), (2, 3), (1, 1, 2), (2, 1, 2, 2), (1, 3, 1, 2), (2, 2, 2, 2)]
    for s in shapes:
        n = math.prod(s)
        x = (torch.arange(n, dtype=torch.float32) * 0.37 - 1).reshape(s)
        f = (torch.arange(n, dtype=torch.float32) * -0.21 + 0.4).reshape(s)
        for lay in ("plain", "flip", "strided"):
            xx, ff = x, f
            if lay == "flip":
                xx = torch.flip(x, [0])
            if lay == "strided":
                xx = torch.stack([x, x * 0 + 9], -1)[..., 0]
                ff = torch.stack([f, f * 0 + 9], -1)[..., 0]
            for tgt in (torch.tensor(1), torch.ones(s), torch.full(s, 0.3)):
                y = [float(v) for v in (tgt * torch.ones(s)).flatten()]
                want = sum(b * sp(-float(a)) + (1 - b) * sp(float(a)) for a, b in zip(xx.flatten(), y)) / n
                ok, g = t.attempt(f"generator {s} {lay}", G, xx, tgt)
                if ok:
                    close(t, g, want, f"generator loss {s} {lay}")
                ok, d = t.attempt(f"discriminator {s} {lay}", D, xx, ff, tgt)
                if ok:
                    close(t, d, 0.5 * (want + sum(sp(float(a)) for a in ff.flatten()) / n), f"discriminator loss {s} {lay}")
                t.state(s, lay, float(tgt.flatten()[0]))
                t.trace()
        for bad in shapes:
            if len(bad) != len(s):
                t.must_raise(f"logits {s} with target {bad}", ValueError, G, x, torch.ones(bad))
                t.must_raise(f"logits {s} with target {bad}", ValueError, D, x, f, torch.ones(bad))
            elif bad != s:
                t.must_raise(f"logits {s} with target {bad}", (ValueError, RuntimeError), G, x, torch.ones(bad))
                t.must_raise(f"logits {s} with target {bad}", (ValueError, RuntimeError), D, x, f, torch.ones(bad))
            if bad != s:
                for tgt in (torch.tensor(1), torch.ones(s)):
                    t.must_raise(f"real logits {s} with fake logits {bad}", (ValueError, RuntimeError), D, x, torch.zeros(bad), tgt)
            t.state("mismatch", s, bad)


def run_ce(t, case):
    from neuralcompression.loss_fn import OASISDiscriminatorLoss, OASISGeneratorLoss
    D, G = OASISDiscriminatorLoss(), OASISGeneratorLoss()
    dt = getattr(torch, case["dt"])
    k = case["k"]
    vals = LG if case["full"] or k == 2 else [-60.0, -0.5, 1.0, 4.0]
    if LG[case["a"]] not in vals:
        return
    second = list(itertools.product([-3.0, 0.0, 4.0], repeat=k))
    for rest in itertools.product(vals, repeat=k - 1):
        p1 = (LG[case["a"]],) + rest
        for p2 in (second if k == 2 or case["full"] else second[::4]) + [None]:
            px = [p1] if p2 is None else [p1, p2]
            lr = torch.tensor(px, dtype=dt).T.reshape(1, k, 1, len(px))
            rev = [tuple(reversed(p)) for p in px]
            lf = torch.tensor(rev, dtype=dt).T.reshape(1, k, 1, len(px))
            fake = sum(ce(p, 0) for p in rev) / len(px)
            for lab in itertools.product(range(k - 1), repeat=len(px)):
                tg = torch.tensor(lab).reshape(1, 1, len(px))
                want = sum(ce(p, l + 1) for p, l in zip(px, lab)) / len(px)
                ok, g = t.attempt(f"generator {px} {lab}", G, lr, tg)
                if ok:
                    close(t, g, want, f"generator loss {px} labels {lab}", case["dt"])
                    t.check(float(g) >= 0 and g.ndim == 0, f"generator loss {px} {lab} = {g}")
                ok, d = t.attempt(f"discriminator {px} {lab}", D, lr, lf, tg)
                if ok:
                    close(t, d, 0.5 * (want + fake), f"discriminator loss {px} {rev} labels {lab}", case["dt"])
                t.state(tuple(px), lab)
                t.trace()
                # raising the label's logit lowers the loss
                up = lr.clone()
                up[0, lab[0] + 1, 0, 0] += 1
                t.check(float(G(up, tg)) <= float(G(lr, tg)) + 1e-6 * max(1.0, want), f"generator loss {px} {lab} grows when the label's logit grows")
                t.step()


def run_ceshape(t, case):
    from neuralcompression.loss_fn import OASISDiscriminatorLoss, OASISGeneratorLoss
    D, G = OASISDiscriminatorLoss(), OASISGeneratorLoss()
    for b, k, h, w in itertools.product((1, 2, 3), (2, 3, 5), (1, 2, 3), (1, 2, 4)):
        n = b * k * h * w
        lr = ((torch.arange(n, dtype=torch.float32) * 7919) % 13 / 3 - 2).reshape(b, k, h, w)
        lf = ((torch.arange(n, dtype=torch.float32) * 104729) % 11 / 3 - 1).reshape(b, k, h, w)
        tg = (torch.arange(b * h * w) * 5 % (k - 1)).reshape(b, h, w)
        rows = [([float(lr[i, c, y, x]) for c in range(k)], [float(lf[i, c, y, x]) for c in range(k)], int(tg[i, y, x])) for i in range(b) for y in range(h) for x in range(w)]
        want = sum(ce(r, l + 1) for r, _, l in rows) / len(rows)
        fake = sum(ce(f, 0) for _, f, _ in rows) / len(rows)
        layouts = {"plain": (lr, lf, tg), "channels_last": (lr.to(memory_format=torch.channels_last), lf.to(memory_format=torch.channels_last), tg),
                   "flat labels": (lr, lf, tg.reshape(b, -1)), "label channel": (lr, lf, tg.unsqueeze(1)),
                   "transposed": (lr.transpose(2, 3).contiguous().transpose(2, 3), lf, tg.transpose(1, 2).contiguous().transpose(1, 2)),
                   "batch last": (lr.permute(1, 2, 3, 0).contiguous().permute(3, 0, 1, 2), lf, tg.permute(1, 2, 0).contiguous().permute(2, 0, 1)),
                   "cropped": (torch.nn.functional.pad(lr, (1, 1, 1, 1))[:, :, 1:-1, 1:-1], lf, torch.nn.functional.pad(tg, (1, 1, 1, 1))[:, 1:-1, 1:-1])}
        for name, (a, f, g) in layouts.items():
            what = f"{(b, k, h, w)} {name}"
            ok, v = t.attempt(f"generator {what}", G, a, g)
            if ok:
                close(t, v, want, f"generator loss {what}")
            ok, v = t.attempt(f"discriminator {what}", D, a, f, g)
            if ok:
                close(t, v, 0.5 * (want + fake), f"discriminator loss {what}")
            t.check(torch.equal(g.reshape(-1), tg.reshape(-1)), f"{what}: the labels were modified")
            t.state(what)
            t.trace()
        for bad in (tg[:, :, :-1], tg[:-1], torch.cat([tg, tg]), torch.zeros(b, h, w + 1, dtype=torch.long)):
            if bad.numel() != tg.numel():
                t.must_raise(f"labels {tuple(bad.shape)} for logits {(b, k, h, w)}", ValueError, G, lr, bad)
                t.must_raise(f"labels {tuple(bad.shape)} for logits {(b, k, h, w)}", ValueError, D, lr, lf, bad)
        for dty in (torch.int32, torch.float32, torch.uint8, torch.bool):
            t.must_raise(f"{dty} labels", ValueError, G, lr, tg.to(dty))
            t.must_raise(f"{dty} labels", ValueError, D, lr, lf, tg.to(dty))
        for bl in (lr[0], lr.reshape(b, k, -1), lr.unsqueeze(0), lr.reshape(-1)):
            t.must_raise(f"logits {tuple(bl.shape)}", ValueError, G, bl, tg)
            t.must_raise(f"logits {tuple(bl.shape)}", ValueError, D, bl, bl, tg)
        t.must_raise("fake logits of another size", ValueError, D, lr, torch.cat([lf, lf], -1), tg)
        t.must_raise("fake logits of another batch", ValueError, D, lr, torch.cat([lf, lf]), tg)


def build(levels, factor, norm, cond, out=3):
    from neuralcompression.models import ConditionalUnetDiscriminator, UnetDiscriminator
    torch.manual_seed(levels * 10 + factor)
    chans = [3 + (2 if cond else 0)] + [4, 6, 5, 3][:levels]
    if cond:
        return ConditionalUnetDiscriminator(output_channels=out, output_downsampling_factor=factor, context_in=2, context_out=2, chans=chans, norm_type=norm)
    return UnetDiscriminator(output_channels=out, output_downsampling_factor=factor, chans=chans, norm_type=norm)


def disc_props(t, m, name, cond, f, sizes, batches, out, norm, ctx_ch=2):
    from neuralcompression.loss_fn import OASISDiscriminatorLoss
    for h, w in sizes:
        for b in batches:
            g = torch.Generator().manual_seed(h * 31 + w)
            x = torch.rand(b, 3, h, w, generator=g)
            ctxs = [None] if not cond else [torch.rand(b, ctx_ch, *cs, generator=g) for cs in ((max(2, h // 4), max(2, w // 4)), (h, w))]
            for ctx in ctxs:
                args = (x,) if ctx is None else (x, ctx)
                keep = [a.clone() for a in args]
                what = f"{name} input {tuple(x.shape)}{'' if ctx is None else ' context %s' % (tuple(ctx.shape[2:]),)}"
                ok, y = t.attempt(what, m, *args)
                t.state(what)
                t.trace()
                if not ok:
                    return False
                t.check(tuple(y.shape) == (b, out, h // f, w // f), f"{what}: logits {tuple(y.shape)}, expected {(b, out, h // f, w // f)}")
                t.check(all(torch.equal(a, k) for a, k in zip(args, keep)), f"{what}: the input was modified")
                if tuple(y.shape) == (b, out, h // f, w // f):
                    lab = torch.zeros(b, h // f, w // f, dtype=torch.long)
                    t.attempt(f"{what}: loss at the output resolution", OASISDiscriminatorLoss(), y, y, lab)
                if b > 1 and not m.training:
                    for i in range(b):
                        one = m(*[a[i:i + 1] for a in args])
                        t.check(torch.allclose(one[0], y[i], atol=1e-4, rtol=1e-4), f"{what}: logits of image {i} depend on the rest of the batch")
                        t.step()
                    perm = list(reversed(range(b)))
                    t.check(torch.allclose(m(*[a[perm] for a in args]), y[perm], atol=1e-4, rtol=1e-4), f"{what}: reordering the batch does not reorder the logits")
    return True


def run_disc(t, case):
    levels, norm, cond = case["levels"], case["norm"], case["cond"]
    for e in range(levels + 1):
        f = 2 ** e
        name = f"{'conditional ' if cond else ''}discriminator levels={levels} factor={f} norm={norm}"
        ok, m = t.attempt(name, build, levels, f, norm, cond)
        if not ok:
            continue
        t.check(m.is_conditional is bool(cond), f"{name}: is_conditional = {m.is_conditional}")
        s = 2 ** levels
        # instance normalisation needs more than one value per channel
        base = 2 * s
        sizes = [(base, base), (base, 2 * base), (3 * s if s > 1 else 6, base)] + ([(4 * base, base)] if case["big"] else [])
        m.train()
        if not disc_props(t, m, name + " train", cond, f, sizes[:2], (2,), 3, norm):
            continue
        m.eval()
        disc_props(t, m, name + " eval", cond, f, sizes, (1, 2, 3), 3, norm)
        # every image position can influence the logits, and the logits get gradients
        x = torch.rand(1, 3, base, base, requires_grad=True)
        args = (x,) if not cond else (x, torch.rand(1, 2, 2, 2, requires_grad=True))
        y = m(*args)
        (y * torch.linspace(0.5, 1.5, y.numel()).reshape(y.shape)).sum().backward()
        t.check(all(bool((a.grad.abs().sum() > 0)) for a in args), f"{name}: no gradient reaches the input")
        nz = (x.grad.abs().sum(1) > 0).float().mean()
        t.check(float(nz) > 0.9, f"{name}: only {float(nz):.2f} of the pixels influence the logits")
        t.check(all(p.grad is not None for p in m.parameters()), f"{name}: parameters without gradient")
        sd = {k: v.clone() for k, v in m.state_dict().items()}
        m2 = build(levels, f, norm, cond).eval()
        ok, _ = t.attempt(f"{name}: load_state_dict", m2.load_state_dict, sd)
        if ok:
            a = [q.detach() for q in args]
            t.check(torch.allclose(m2(*a), m(*a), atol=1e-5), f"{name}: a reloaded discriminator gives other logits")


def run_default(t, case):
    from neuralcompression.models import ConditionalUnetDiscriminator, UnetDiscriminator
    torch.set_num_threads(1)
    for f in case["factors"]:
        name = f"default {'conditional ' if case['cond'] else ''}discriminator factor={f} norm={case['norm']}"
        if case["cond"]:
            ok, m = t.attempt(name, ConditionalUnetDiscriminator, 2, f, context_in=4, norm_type=case["norm"])
        else:
            ok, m = t.attempt(name, UnetDiscriminator, 2, f, norm_type=case["norm"])
        if ok:
            if not case["cond"]:
                with torch.device("meta"):
                    e = UnetDiscriminator(2, f, [3, 128, 128, 256, 256, 512, 512], norm_type=case["norm"])
                t.check(sorted(tuple(p.shape) for p in m.parameters()) == sorted(tuple(p.shape) for p in e.parameters()), f"{name}: not the widths 128, 128, 256, 256, 512, 512")
            m.eval()
            with torch.no_grad():
                disc_props(t, m, name, case["cond"], f, [(128, 128)], (1,), 2, case["norm"], ctx_ch=4)


def run_reject(t, case):
    from neuralcompression.models import UnetDiscriminator
    for f in (0, 3, 5, 6, 7, 9, 12, 24, 48):
        t.must_raise(f"output_downsampling_factor={f}", ValueError, UnetDiscriminator, 2, f, [3, 4, 4, 4])
        t.state(f)
    for norm in ("", "layer", "Batch", None):
        t.must_raise(f"norm_type={norm!r}", ValueError, UnetDiscriminator, 2, 2, [3, 4, 4], norm)
        t.state(str(norm))
    for levels in (1, 2, 3):
        for e in (1, 2, 3):
            t.must_raise(f"a factor of {2 ** (levels + e)} with {levels} levels", ValueError, UnetDiscriminator, 2, 2 ** (levels + e), [3] + [4] * levels)
            t.state(levels, e)


def run_case(t, case):
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
