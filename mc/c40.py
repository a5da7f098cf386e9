"""C40: the video transforms over all small clips, frame sizes and chunkings."""
import copy
import hashlib
import itertools
import os
import sys
import torch
import torch.nn.functional as F
from . import core

PID = "C40"
ASSUMPTIONS = ["values are compared with reduced channel counts in double precision; the full-size networks by the names and shapes of their state",
               "compressai's GDN and attention layers are trusted"]
# names and shapes of the published state: number of entries and digest
STATE = {"gdn analysis": (26, "716f9c864a68de8e"), "gdn synthesis": (26, "496ba6c0d408e081"), "elic analysis": (138, "fb958730d125f5e1"), "elic synthesis": (138, "6ff1ddb31913a97b")}


def mods():
    p = os.path.join(core.REPO, "projects", "torch_vct")
    if p not in sys.path:
        sys.path.insert(0, p)
    from neural import transforms
    return transforms


def bounds(tier):
    q = tier == "quick"
    return ("4 transforms x frame sizes %s squared x 1..3 clips x 1..%d frames, every frame alone; all chunk sizes 1..%d; every frame perturbed; gradients; all crop sizes of a 32x32 output; configurations" % ((1, 16, 17, 31, 32) if q else (1, 2, 15, 16, 17, 31, 32, 33, 48), 4 if q else 6, 13 if q else 25))


SIZES = (1, 16, 17, 31, 32)


def cases(tier):
    sizes = SIZES if tier == "quick" else (1, 2, 15, 16, 17, 31, 32, 33, 48)
    for fam, side in itertools.product(("gdn", "elic"), ("analysis", "synthesis")):
        for h in sizes:
            yield {"kind": "frames", "fam": fam, "side": side, "h": h, "ws": list(sizes), "T": 4 if tier == "quick" else 6}
        if fam == "elic":
            for b in (1, 2, 3):
                yield {"kind": "chunk", "side": side, "b": b, "T": 4 if tier == "quick" else 8}
        yield {"kind": "ref", "fam": fam, "side": side}
        if side == "synthesis":
            yield {"kind": "crop", "fam": fam}
        yield {"kind": "state", "fam": fam, "side": side}
    yield {"kind": "config"}


CH = 4


def make(fam, side, max_frames=None, blocks=1, seed=0):
    tr = mods()
    torch.manual_seed(seed)
    if fam == "gdn":
        m = tr.ConvGDNAnalysis(6, CH) if side == "analysis" else tr.ConvGDNSynthesis(6, CH)
    elif side == "analysis":
        m = tr.ELICAnalysis(blocks, [4, 6, 8, CH], max_frames=max_frames)
    else:
        m = tr.ELICSynthesis(blocks, [CH, 8, 6, 3], max_frames=max_frames)
    return m.double().eval()


def clip(b, t, c, h, w):
    n = b * t * c * h * w
    i = torch.arange(n, dtype=torch.float64)
    return ((i * 0.7371 + (i * i) * 0.0193).sin() * 0.9).reshape(b, t, c, h, w)


def near(a, b, tol=1e-9):
    return a.shape == b.shape and float((a - b).abs().max() if a.numel() else 0.0) <= tol * (1 + float(b.abs().max() if b.numel() else 0))


def call(m, side, x, hw):
    if side == "analysis":
        return m(x)
    return m(x, torch.Size((x.shape[0], x.shape[1], 3, *hw)))


def up(v):
    return -(-v // 16)


def run_frames(t, case):
    side, h = case["side"], case["h"]
    m = make(case["fam"], side)
    for w in case["ws"]:
        single = {}
        for b, T in itertools.product((1, 2, 3), range(1, case["T"] + 1)):
            c = 3 if side == "analysis" else CH
            shape = (h, w) if side == "analysis" else (up(h), up(w))
            x = clip(3, case["T"], c, *shape)[:b, :T].contiguous()
            what = f"{case['fam']} {side} of {b} clips of {T} frames {h}x{w}"
            x0 = x.clone()
            with torch.no_grad():
                ok, y = t.attempt(what, call, m, side, x, (h, w))
            t.state(h, w, b, T)
            t.trace()
            if not ok:
                continue
            want = (b, T, CH, up(h), up(w)) if side == "analysis" else (b, T, 3, h, w)
            if not t.check(tuple(y.shape) == want, f"{what}: shape {tuple(y.shape)}, expected {want}"):
                continue
            t.check(torch.equal(x, x0), f"{what}: the input was modified")
            for i, j in itertools.product(range(b), range(T)):
                if (i, j) not in single:
                    with torch.no_grad():
                        ok, z = t.attempt(f"{what}: frame alone", call, m, side, x[i:i + 1, j:j + 1].clone(), (h, w))
                    single[i, j] = z[0, 0] if ok else y[i, j]
                t.check(near(y[i, j], single[i, j]), f"{what}: frame {j} of clip {i} differs from the frame transformed alone")
                t.step()


def run_chunk(t, case):
    side, b = case["side"], case["b"]
    c, s = (3, 17) if side == "analysis" else (CH, 2)
    plain = make("elic", side)
    for T in range(1, case["T"] + 1):
        x = clip(b, T, c, s, s)
        xg = x.clone().requires_grad_()
        want = call(plain, side, xg, (21, 30))
        weight = torch.linspace(-1, 1, want.numel(), dtype=torch.float64).reshape(want.shape)
        (want * weight).sum().backward()
        grads = [p.grad.clone() for p in plain.parameters()]
        plain.zero_grad()
        for k in range(1, b * T + 2):
            m = make("elic", side, k)
            m.load_state_dict(plain.state_dict())
            what = f"{side} of {b} clips of {T} frames in chunks of {k}"
            xk = x.clone().requires_grad_()
            t.state(T, k)
            t.trace()
            if b * T > k and (b * T) % k:
                try:  # not divisible: refused, or transformed right
                    y = call(m, side, xk, (21, 30))
                except (AssertionError, ValueError, RuntimeError):
                    continue
            else:
                ok, y = t.attempt(what, call, m, side, xk, (21, 30))
                if not ok:
                    continue
            if t.check(near(y, want), f"{what}: differs from the transform without chunks"):
                (y * weight).sum().backward()
                t.check(near(xk.grad, xg.grad) and all(near(p.grad, g) for p, g in zip(m.parameters(), grads)), f"{what}: gradients differ from the transform without chunks")


def run_crop(t, case):
    m = make(case["fam"], "synthesis")
    x = clip(1, 2, CH, 2, 2)
    with torch.no_grad():
        full = call(m, "synthesis", x, (32, 32))
        if not t.check(tuple(full.shape) == (1, 2, 3, 32, 32), f"full output {tuple(full.shape)}"):
            return
        for h, w in itertools.product(range(1, 33), repeat=2):
            ok, y = t.attempt(f"crop {h}x{w}", call, m, "synthesis", x, (h, w))
            if ok:
                t.check(near(y, full[..., :h, :w]), f"{case['fam']} synthesis for {h}x{w} frames is not the upper left part of the full output")
            t.state(h, w)
            t.trace()


def ref_unit(sd, p, x):
    y = F.relu(F.conv2d(x, sd[p + "conv.0.weight"], sd[p + "conv.0.bias"]))
    y = F.relu(F.conv2d(y, sd[p + "conv.2.weight"], sd[p + "conv.2.bias"], padding=1))
    return F.relu(x + F.conv2d(y, sd[p + "conv.4.weight"], sd[p + "conv.4.bias"]))


def run_ref(t, case):
    """Values against a reference built from the convolutions' definition."""
    from compressai.layers import GDN, AttentionBlock
    fam, side = case["fam"], case["side"]
    for blocks in (1,) if fam == "gdn" else (0, 1, 3):
        m = make(fam, side, blocks=blocks, seed=3)
        sd = m.state_dict()
        conv = lambda y, p: F.conv2d(y, sd[p + "weight"], sd[p + "bias"], stride=2, padding=2)
        deconv = lambda y, p: F.conv_transpose2d(y, sd[p + "weight"], sd[p + "bias"], stride=2, padding=2, output_padding=1)

        def part(cls, p, n, **k):
            g = cls(n, **k).double()
            g.load_state_dict({a[len(p):]: v for a, v in sd.items() if a.startswith(p)})
            return g
        for b, T, h, w in itertools.product((1, 2), (1, 2), (16, 33), (17, 32)):
            if side == "analysis":
                x = clip(b, T, 3, h, w)
            else:
                x = clip(b, T, CH, up(h), up(w))
            y = x.reshape(-1, *x.shape[2:])
            i = 0
            what = f"{fam} {side} with {blocks} units on {b}x{T} frames {h}x{w}"

            def nxt():
                nonlocal i
                i += 1
                return f"transforms.{i - 1}."
            with torch.no_grad():
                try:
                    if fam == "gdn":
                        step = conv if side == "analysis" else deconv
                        for k in range(4):
                            y = step(y, nxt())
                            if k < 3:
                                p = nxt()
                                y = part(GDN, p, 6, inverse=side == "synthesis")(y)
                    else:
                        step = conv if side == "analysis" else deconv
                        if side == "analysis":
                            plan = ["c", "u", "c", "u", "a", "c", "u", "c", "a"]
                        else:
                            plan = ["a", "c", "u", "c", "a", "u", "c", "u", "c"]
                        for op in plan:
                            if op == "c":
                                y = step(y, nxt())
                            elif op == "a":
                                y = part(AttentionBlock, nxt(), y.shape[1])(y)
                            else:
                                for _ in range(blocks):
                                    y = ref_unit(sd, nxt(), y)
                except KeyError as e:
                    t.fail(f"{what}: no weights named {e} (published checkpoints have them)")
                    return
                ok, got = t.attempt(what, call, m, side, x, (h, w))
            want = y.reshape(b, T, *y.shape[1:])
            if side == "synthesis":
                want = want[..., :h, :w]
            if ok:
                t.check(near(got, want), f"{what}: differs from the definition")
            t.state(blocks, b, T, h, w)
            t.trace()


def state_of(m):
    sd = m.state_dict()
    return len(sd), hashlib.sha256(repr(sorted((k, tuple(v.shape), str(v.dtype)) for k, v in sd.items())).encode()).hexdigest()[:16]


def run_state(t, case):
    tr = mods()
    fam, side = case["fam"], case["side"]
    cls = getattr(tr, ("ConvGDN" if fam == "gdn" else "ELIC") + side.capitalize())
    for k in range(2):  # building one must not affect the next
        m = cls()
        t.check(state_of(m) == STATE[f"{fam} {side}"], f"default {fam} {side}, built {k + 1} times: its state is {state_of(m)}, published {STATE[f'{fam} {side}']}")
        t.check(m.compression_channels == 192, f"{fam} {side}: {m.compression_channels} compression channels")
        t.state(k)
        t.trace()


def run_config(t, case):
    tr = mods()
    for n in range(0, 7):
        chans = [4] * n
        for cls in (tr.ELICAnalysis, tr.ELICSynthesis):
            keep = list(chans)
            if n == 4:
                ok, m = t.attempt(f"{cls.__name__} with {chans}", cls, 1, chans)
                t.check(chans == keep, f"{cls.__name__}: the caller's channel list was changed")
            else:
                t.must_raise(f"{cls.__name__} with {n} channels", ValueError, cls, 1, chans)
            t.state(cls.__name__, n)
            t.trace()
    for last, given in itertools.product((3, 4, 5), (None, 3, 4, 5)):
        for cls, kw in ((tr.ELICAnalysis, "compression_channels"), (tr.ELICSynthesis, "output_channels")):
            chans = [4, 6, 8, last]
            if given is None or given == last:
                ok, m = t.attempt(f"{cls.__name__} {chans} {kw}={given}", lambda: cls(1, chans, **{kw: given}))
                if ok:
                    want = last if cls is tr.ELICAnalysis else 4
                    t.check(m.compression_channels == want, f"{cls.__name__} {chans}: {m.compression_channels} compression channels")
            else:
                t.must_raise(f"{cls.__name__} {chans} {kw}={given}", ValueError, lambda: cls(1, chans, **{kw: given}))
            t.state(cls.__name__, last, given)
            t.trace()
    for c in (2, 5):
        t.check(tr.ConvGDNAnalysis(4, c).compression_channels == c and tr.ConvGDNSynthesis(4, c).compression_channels == c and tr.ConvGDNAnalysis(4, c).num_downsampling_layers == 4, f"channel count {c}")
        t.state("gdn", c)


def run_case(t, case):
    torch.set_num_threads(1)
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
