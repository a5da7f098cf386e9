"""C03: DVC P-frame coding, exhaustively over frame sizes and sequences."""
import copy
import itertools
import pickle
import sys

import torch

from . import core, nets

PID = "C03"
ASSUMPTIONS = ["small channel counts; kernel sizes, strides, pyramid and entropy coder are the real ones",
               "frames of at least 32x32 (five-level pyramid, padding of the first levels)"]


def bounds(tier):
    return ("every frame size (H,W) in [32,%d]^2 (all residues mod 16 of both dims) for the default topology, "
            "4 topologies x 12x12 residues, batch 1..3, all P-frame sequences of length <= %d over 3 frames"
            % ((96, 3) if tier == "quick" else (160, 4)))


def make(seed=0, ch=3, gdn=True, levels=5, mc_levels=3, layers=4, gain=30.0, ready=True):
    from neuralcompression.models.deep_video_compression import (
        DVC, DVCCompressionDecoder, DVCCompressionEncoder, DVCMotionCompensationModel, DVCPyramidFlowEstimator)
    torch.manual_seed(seed)
    m = DVC(
        coder_channels=ch,
        motion_estimator=DVCPyramidFlowEstimator(filter_counts=[3, 2], levels=levels),
        motion_encoder=DVCCompressionEncoder(2, ch, ch, kernel_size=3, num_conv_layers=layers, use_gdn=gdn),
        motion_decoder=DVCCompressionDecoder(ch, 2, ch, kernel_size=3, num_conv_layers=layers, use_gdn=gdn),
        motion_compensation=DVCMotionCompensationModel(model_channels=3, num_levels=mc_levels),
        residual_encoder=DVCCompressionEncoder(3, ch, ch, kernel_size=5, num_conv_layers=layers, use_gdn=gdn),
        residual_decoder=DVCCompressionDecoder(ch, 3, ch, kernel_size=5, num_conv_layers=layers, use_gdn=gdn),
    )
    with torch.no_grad():
        for enc in (m.motion_encoder, m.residual_encoder):
            convs = [l for l in enc.layers if isinstance(l, torch.nn.Conv2d)]
            convs[-1].weight.mul_(gain)
    nets.trained_medians_(m.motion_entropy_bottleneck, seed)
    nets.trained_medians_(m.residual_entropy_bottleneck, seed + 1)
    if ready:
        m.eval()
        m.update()
    return m


def frozen(c):
    return pickle.dumps((c.compressed_flow, [tuple(s) for s in c.flow_decomp_sizes], c.compressed_residual,
                         [tuple(s) for s in c.residual_decomp_sizes]))


def pframe(t, m, a, b, what, deep=False):
    with torch.no_grad():
        ok, c = t.attempt(f"compress {what}", m.compress, a, b)
        if not ok:
            return None
        before = frozen(c)
        a0 = a.clone()
        ok, y = t.attempt(f"decompress {what}", m.decompress, a, c)
        if not ok:
            return None
        ref = m(a, b).image2_est
        t.check(ref.min() != ref.max(), f"vacuous estimate {what}")
        t.check(tuple(y.shape) == tuple(b.shape), f"decoded frame has shape {tuple(y.shape)} ({what})")
        t.check(bool(((y >= 0) & (y <= 1)).all()), f"decoded frame leaves [0,1] ({what})")
        if y.shape == ref.shape:
            d = float((y - ref.clamp(0, 1)).abs().max())
            t.check(d <= 1e-5, f"decoder frame differs from the encoder's estimate by {d} ({what})")
        t.check(torch.equal(a, a0), f"decoding modified the base frame ({what})")
        t.check(frozen(c) == before, f"decoding modified the compressed frame ({what})")
        if deep:
            y2 = m.decompress(a, c)
            t.check(torch.equal(y, y2), f"second decode differs ({what})")
            y3 = m.decompress(a, pickle.loads(pickle.dumps(c)))
            t.check(torch.equal(y, y3), f"decode of the serialised frame differs ({what})")
            c2 = m.compress(a, b)
            t.check(frozen(c2) == frozen(c), f"compress is not deterministic ({what})")
            t.step(3)
    t.state(before)
    t.outcome(y)
    t.trace()
    return c, y


TOPO = [dict(gdn=True, levels=3, mc_levels=1, layers=4), dict(gdn=False, levels=4, mc_levels=2, layers=3),
        dict(gdn=True, levels=2, mc_levels=3, layers=2), dict(gdn=False, levels=5, mc_levels=3, layers=4)]


def cases(tier):
    hi = 96 if tier == "quick" else 160
    for h in range(32, hi + 1):
        yield {"kind": "sizes", "h": h, "lo": 32, "hi": hi, "step": 1}
    for i, _ in enumerate(TOPO):
        for h in range(33, 64, 6):
            yield {"kind": "topo", "topo": i, "h": h}
    for b in (1, 2, 3):
        yield {"kind": "batch", "b": b}
    for n in range(1, 4 if tier == "quick" else 5):
        yield {"kind": "seq", "n": n}
    yield {"kind": "default"}
    yield {"kind": "histories"}


def frame(b, h, w, s):
    return nets.image(b, 3, h, w, s)


def run_case(t, case):
    k = case["kind"]
    if k == "sizes":
        m = make()
        h = case["h"]
        for w in range(case["lo"], case["hi"] + 1, case["step"]):
            pframe(t, m, frame(1, h, w, 1), frame(1, h, w, 2), f"frame {h}x{w}")
            if len(t.problems) > 3:
                return
    elif k == "topo":
        m = make(seed=3, **TOPO[case["topo"]])
        for w in range(33, 64, 3):
            pframe(t, m, frame(1, case["h"], w, 1), frame(1, case["h"], w, 2),
                   f"topology {TOPO[case['topo']]} frame {case['h']}x{w}", deep=True)
    elif k == "batch":
        for gain in (0.0, 1.0, 30.0, 2000.0):
            m = make(seed=1, gain=gain)
            for h, w in [(64, 64), (72, 40), (45, 67)]:
                a, b = frame(case["b"], h, w, 1), frame(case["b"], h, w, 2)
                r = pframe(t, m, a, b, f"batch {case['b']} gain {gain} {h}x{w}", deep=True)
                if r is None:
                    return
                with torch.no_grad():
                    for i in range(case["b"]):
                        ci = m.compress(a[i:i + 1], b[i:i + 1])
                        yi = m.decompress(a[i:i + 1], ci)
                        t.step(2)
                        # float kernels may differ between batch sizes: compare the frames
                        d = float((yi - r[1][i:i + 1]).abs().mean())
                        t.check(d < 2e-2, f"frame {i} depends on its batch (mean diff {d})")
    elif k == "default":
        from neuralcompression.models import DVC
        torch.manual_seed(0)
        m = DVC(coder_channels=4).eval()
        t.check(m.update() is True, "update() reports nothing updated")
        for h, w in [(64, 64), (72, 70), (88, 135)]:
            pframe(t, m, frame(1, h, w, 1), frame(1, h, w, 2), f"default constructor {h}x{w}", deep=True)
    elif k == "seq":
        # encoder reconstructs with its own decoder; an independent decoder
        # instance follows only from the bitstreams
        enc = make(seed=2)
        dec = copy.deepcopy(enc)
        h, w = 40, 56
        frames = [frame(1, h, w, s) for s in (3, 4, 5)]
        for order in itertools.product(range(3), repeat=case["n"] + 1):
            e = frames[order[0]]
            d = e.clone()
            with torch.no_grad():
                for i, f in enumerate(order[1:]):
                    c = enc.compress(e, frames[f])
                    e_new = enc(e, frames[f]).image2_est.clamp(0, 1)
                    d = dec.decompress(d, pickle.loads(pickle.dumps(c)))
                    t.step(2)
                    if not t.check(torch.allclose(d, e_new, atol=1e-5),
                                   f"decoder drifts from the encoder at P-frame {i} of sequence {order}"):
                        return
                    e = d.clone()
            t.state(order, d)
            t.outcome(d)
            t.trace()
        t.sample({"sequence": list(order)})
    elif k == "histories":
        # calls on one model never influence each other
        base = make(seed=4)
        sizes = [(40, 40), (57, 44), (33, 72)]
        gold = []
        with torch.no_grad():
            for i, (h, w) in enumerate(sizes):
                a, b = frame(1, h, w, i), frame(1, h, w, i + 7)
                c = base.compress(a, b)
                gold.append((a, b, frozen(c), c, base.decompress(a, c)))
        ops = [("c", i) for i in range(3)] + [("d", i) for i in range(3)] + [("f", 0), ("u", 0), ("t", 0)]
        for seq in itertools.product(ops, repeat=3):
            m = copy.deepcopy(base)
            with torch.no_grad():
                for op, i in seq:
                    a, b, fz, c, y = gold[i]
                    t.step()
                    if op == "c":
                        t.check(frozen(m.compress(a, b)) == fz, f"history {seq}: different bitstream")
                    elif op == "d":
                        t.check(torch.equal(m.decompress(a, c), y), f"history {seq}: different frame")
                    elif op == "f":
                        m(a, b)
                    elif op == "u":
                        m.update(force=True)
                    else:
                        m.train()
                        m.eval()
            t.state(seq)
            t.trace()
            if len(t.problems) > 3:
                return


if __name__ == "__main__":
    core.main(sys.modules[__name__])
