"""C01: HiFiC codec round trip, exhaustively over sizes/batches/histories."""
import copy
import itertools
import pickle
import sys

import torch
import torch.nn.functional as F

from . import core, nets

PID = "C01"
ASSUMPTIONS = [
    "at least 4 hyper latents per image (compressai 1.2.4's encoder aborts on messages of fewer than 4 symbols)",
    "CPU execution; compressai rANS coder and torch kernels trusted",
    "exact-network slices replace the convolutional encoder/decoder by 16x down/up-sampling nets with dyadic weights; real-network slices use the repository's own",
    "sizes below 33 are not accepted by reflection padding and are outside the property",
]


def bounds(tier):
    return ("exact nets: every (H,W) in [33,%d]^2 + strips; real nets: 13x13 residues; batch 1..4; "
            "channels 1,3,4; all call histories of length <= %d over 2 images" % ((132, 4) if tier == "quick" else (200, 5)))


def make(cin, lat, hyp, gain, exact=True, seed=0, res=0):
    from neuralcompression.models import HiFiCAutoencoder
    torch.manual_seed(1000 + seed)
    m = HiFiCAutoencoder(in_channels=cin, latent_features=lat, hyper_features=hyp,
                         num_residual_blocks=res)
    if exact:
        m.encoder = nets.ExactEncoder(cin, lat, gain, seed)
        m.decoder = nets.ExactDecoder(cin, lat, gain, seed)
        for i, name in enumerate(["hyper_analysis", "hyper_synthesis_mean", "hyper_synthesis_scale"]):
            nets.dyadic_(getattr(m, name), seed * 10 + i)
    else:
        with torch.no_grad():
            # spread the latents so that coding is not trivial
            last = [p for n, p in m.encoder.named_parameters()]
            last[-2].mul_(8.0)
    nets.trained_medians_(m.hyper_bottleneck, seed)
    m.eval()
    m.update()
    return m


def reference(m, x):
    """Evaluation-mode reconstruction of the padded image, cropped, clamped."""
    h, w = x.shape[-2:]
    f = m.factor
    ph, pw = -h % f, -w % f
    xp = F.pad(x, (0, pw, 0, ph), mode="reflect") if (ph or pw) else x
    was = m.training
    m.eval()
    out = m(xp).image
    m.train(was)
    return out[:, :, :h, :w].clamp(0.0, 1.0), out


def split(c, i):
    return c._replace(latent_strings=[c.latent_strings[i]],
                      hyper_latent_strings=[c.hyper_latent_strings[i]]) if hasattr(c, "_replace") else \
        __import__("dataclasses").replace(c, latent_strings=[c.latent_strings[i]],
                                          hyper_latent_strings=[c.hyper_latent_strings[i]])


def strings(c):
    return [bytes(s) for s in c.latent_strings], [bytes(s) for s in c.hyper_latent_strings]


def roundtrip(t, m, x, what, exact):
    with torch.no_grad():
        ok, c = t.attempt(f"compress {what}", m.compress, x)
        if not ok:
            return None
        ok, y = t.attempt(f"decompress {what}", m.decompress, c)
        if not ok:
            return None
        ref, raw = reference(m, x)
    t.check(tuple(y.shape) == tuple(x.shape), f"decoded size {tuple(y.shape)} != input size {tuple(x.shape)} ({what})")
    t.check(bool(((y >= 0) & (y <= 1)).all()), f"decoded values outside [0,1] ({what})")
    if tuple(y.shape) == tuple(ref.shape):
        same = torch.equal(y, ref) if exact else torch.allclose(y, ref, atol=1e-4)
        t.check(same, f"decoded image differs from the model's own reconstruction ({what}): "
                      f"max diff {float((y - ref).abs().max())}")
    t.check(tuple(c.image_size) == tuple(x.shape[-2:]), f"reported image size {c.image_size} ({what})")
    t.state(strings(c), tuple(c.image_size))
    t.outcome(y)
    t.trace()
    t.sample({"what": what, "latent_bytes": [len(s) for s in c.latent_strings], "out_shape": list(y.shape)})
    return c, y


def cases(tier):
    hi = 132 if tier == "quick" else 200
    for h in range(33, hi + 1):
        yield {"kind": "sizes", "h": h, "lo": 33, "hi": hi}
    yield {"kind": "strips"}
    for cfg in itertools.product([1, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5, 7], [1, 3, 4], [(2, 4), (3, 5)], [1, 40, 3000]):
        b, c, (lat, hyp), gain = cfg
        yield {"kind": "batch", "b": b, "c": c, "lat": lat, "hyp": hyp, "gain": gain}
    res = [33, 47, 48, 63, 64, 65, 80, 95, 96, 97, 127, 128, 129]
    for h in res:
        yield {"kind": "real", "h": h, "ws": res}
    yield {"kind": "crossinstance"}
    depth = 4 if tier == "quick" else 5
    for first in HOPS:
        yield {"kind": "history", "first": first, "depth": depth}


HOPS = ["cA", "cB", "dA", "dB", "fwd", "update", "updatef", "train", "eval", "toggle"]


def run_case(t, case):
    k = case["kind"]
    if k == "sizes":
        m = make(3, 2, 4, 8)
        h = case["h"]
        for w in range(case["lo"], case["hi"] + 1):
            x = nets.image(1, 3, h, w, seed=h + w)
            roundtrip(t, m, x, f"exact net, image {h}x{w}", True)
            if len(t.problems) > 3:
                return
    elif k == "strips":
        m = make(3, 2, 4, 8)
        for h, w in [(33, 700), (700, 33), (64, 1100), (1100, 64), (513, 513), (300, 257), (257, 640), (1, 1)]:
            if h < 33:
                continue
            roundtrip(t, m, nets.image(1, 3, h, w), f"exact net, image {h}x{w}", True)
            roundtrip(t, m, nets.image(2, 3, h, w, 3), f"exact net, batch of 2 images {h}x{w}", True)
    elif k == "batch":
        m = make(case["c"], case["lat"], case["hyp"], case["gain"], seed=case["gain"])
        for h, w in [(64, 64), (70, 100), (129, 65)]:
            x = nets.image(case["b"], case["c"], h, w, seed=5)
            if case["b"] > 1:  # one constant image in the batch
                x[1] = 0.5
            what = f"{case} {h}x{w}"
            r = roundtrip(t, m, x, what, True)
            if r is None:
                return
            c, y = r
            with torch.no_grad():
                again = m.compress(x.clone())
                nonc = m.compress(x.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2))
                t.step(2)
                t.check(strings(c) == strings(again), f"compress is not deterministic ({what})")
                t.check(strings(c) == strings(nonc), f"compress depends on the memory layout of its input ({what})")
                for i in range(case["b"]):
                    ok, ci = t.attempt(f"compress image {i} alone {what}", m.compress, x[i:i + 1])
                    if not ok:
                        return
                    si = split(c, i)
                    t.check(strings(ci) == strings(si),
                            f"bitstream of image {i} depends on its batch ({what})")
                    ok, yi = t.attempt("decompress one image of a batch", m.decompress, si)
                    if ok:
                        t.check(torch.equal(yi, y[i:i + 1]), f"decoded image {i} depends on its batch ({what})")
                c2 = pickle.loads(pickle.dumps(c))
                y2 = m.decompress(c2)
                t.check(torch.equal(y2, y), f"serialised stream decodes differently ({what})")
                y3 = m.decompress(copy.deepcopy(c))
                t.check(torch.equal(y3, y), f"second decode differs ({what})")
    elif k == "real":
        m = make(3, 4, 4, 1, exact=False, res=1)
        for w in case["ws"]:
            h = case["h"]
            x = nets.image(1 + (h + w) % 2, 3, h, w, seed=w)
            roundtrip(t, m, x, f"real nets, image {h}x{w}", False)
    elif k == "crossinstance":
        for exact in (True, False):
            for seed in (0, 1, 2):
                m = make(3, 3, 4, 8, exact=exact, seed=seed)
                m2 = make(3, 3, 4, 8, exact=exact, seed=seed + 50)
                ok, _ = t.attempt("load_state_dict into a second instance", m2.load_state_dict, m.state_dict())
                if not ok:
                    continue
                m2.eval()
                for h, w in [(64, 64), (65, 130), (40, 90)]:
                    x = nets.image(2, 3, h, w, seed)
                    with torch.no_grad():
                        c = m.compress(x)
                        y = m.decompress(c)
                        ok, y2 = t.attempt("decode in another instance", m2.decompress, pickle.loads(pickle.dumps(c)))
                        if ok:
                            t.check(torch.equal(y, y2), f"instance with the same weights decodes differently {h}x{w} exact={exact}")
                        c2 = m2.compress(x)
                        t.check(strings(c) == strings(c2), "instance with the same weights encodes differently")
                        t.state(strings(c), seed, exact)
                    t.trace()
    elif k == "history":
        history(t, case["first"], case["depth"])


def history(t, first, depth):
    xs = {"A": nets.image(1, 3, 64, 70, 1), "B": nets.image(2, 3, 97, 64, 2)}
    base = make(3, 2, 4, 8)
    gold = {}
    with torch.no_grad():
        for n, x in xs.items():
            c = base.compress(x)
            gold[n] = (c, strings(c), base.decompress(c))
    blob = pickle.dumps({n: g[0] for n, g in gold.items()})
    for hist in itertools.product(HOPS, repeat=depth - 1):
        m = copy.deepcopy(base)
        live = pickle.loads(blob)
        seq = (first,) + hist
        # only histories that end in an observation are interesting
        if seq[-1][0] not in "cd" or seq[-1] == "fwd":
            continue
        with torch.no_grad():
            for op in seq:
                try:
                    if op[0] == "c" and len(op) == 2:
                        c = m.compress(xs[op[1]])
                        t.check(strings(c) == gold[op[1]][1], f"after {seq}: compressing {op[1]} gives a different bitstream")
                        live[op[1]] = c
                    elif op[0] == "d" and len(op) == 2:
                        y = m.decompress(live[op[1]])
                        t.check(torch.equal(y, gold[op[1]][2]), f"after {seq}: decoding {op[1]} gives a different image")
                    elif op == "fwd":
                        m(xs["A"][:, :, :64, :64])
                    elif op == "update":
                        m.update()
                    elif op == "updatef":
                        m.update(force=True)
                    elif op == "train":
                        m.train()
                    elif op == "eval":
                        m.eval()
                    elif op == "toggle":
                        m.update_tensor_devices("compress")
                        m.update_tensor_devices("forward")
                except Exception as e:  # noqa: BLE001
                    t.fail(f"history {seq}: {op} raised {type(e).__name__}: {e}")
                    return
                t.step()
        t.state(seq)
        t.trace()
        if len(t.problems) > 3:
            return


if __name__ == "__main__":
    core.main(sys.modules[__name__])
