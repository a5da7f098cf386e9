"""C06: VCT conditional coder, exhaustive over value x mean x scale lattices."""
import copy
import itertools
import math
import sys
import numpy as np
import scipy.stats as sps
import torch
from . import core

PID = "C06"
ASSUMPTIONS = ["messages of at least 4 symbols (compressai 1.2.4 allocates one output word per symbol and aborts on shorter ones)", "compressai's rANS coder is trusted", "float32 inputs on CPU"]
CONFIGS = [  # num_scales, min_scale, num_means, tail_mass
    (16, 0.01, 5, 2 ** -8), (16, 0.01, 1, 2 ** -8), (8, 0.11, 8, 2 ** -8), (24, 0.05, 10, 2 ** -5),
    (40, 0.01, 20, 2 ** -8), (2, 0.5, 2, 2 ** -8), (12, 0.01, 3, 2 ** -12),
]


def bounds(tier):
    return ("%d table configurations; values within +-40000 of the mean at 60 offsets incl. every rounding tie and its neighbours; "
            "28 means; 26 scale parameters from -1e6 to 1e6; all compress/decompress/update histories of length <= 4" % len(CONFIGS))


OFFS = sorted(set(
    [float(k) for k in range(-12, 13)] + [k + 0.5 for k in range(-4, 4)] + [0.25, -0.25, 0.499, -0.499, 0.501, -0.501]
    + [20.3, -20.3, 63.0, -64.0, 127.0, -128.0, 255.5, -255.5, 700.0, -700.0, 1500.0, -1500.0, 5000.25, -5000.25, 40000.0, -40000.0]))
MEANS = ([k / 8 for k in range(-8, 9)] + [0.4999, 0.5001, -0.4999, -0.5001, 1e-6, -1e-6, 2.5, 3.5, -7.5, 1000.3, -999.7])
SCALES = [-1e6, -1e4, -300.0, -60.0, -20.0, -9.0, -5.0, -3.0, -2.0, -1.0, -0.5, -0.1, -1e-4, 0.0, 1e-4, 0.3, 1.0, 2.0,
          5.0, 12.0, 40.0, 100.0, 250.0, 300.0, 1e4, 1e6]


def grid():
    o, m, s = np.meshgrid(OFFS, MEANS, SCALES, indexing="ij")
    m = torch.tensor(m, dtype=torch.float32)
    x = torch.tensor(o, dtype=torch.float32) + m.round()
    return x, m, torch.tensor(s, dtype=torch.float32)


def softplus(s):
    s = np.asarray(s, dtype=np.float64)
    return np.where(s > 0, s + 1, 1 / (1 - np.minimum(s, 0)))


def make(cfg):
    from projects.torch_vct.neural.bottlenecks import GsnConditionalLocScaleShift
    torch.manual_seed(0)
    g = GsnConditionalLocScaleShift(num_scales=cfg[0], min_scale=cfg[1], num_means=cfg[2], tail_mass=cfg[3])
    g.eval()
    return g


def cases(tier):
    for i in range(len(CONFIGS)):
        yield {"kind": "lossless", "cfg": i}
        yield {"kind": "tables", "cfg": i}
        yield {"kind": "likelihood", "cfg": i}
        yield {"kind": "rate", "cfg": i}
    for first in OPS:
        yield {"kind": "history", "first": first, "depth": 4 if tier == "quick" else 6}
    yield {"kind": "shapes"}
    if tier == "thorough":
        yield {"kind": "default"}


OPS = ["cA", "cB", "dA", "dB", "up", "upf", "fwd", "train", "eval"]


def want_q(x, m):
    return (x - m.round()).round() + m.round()


def lossless(t, g, x, m, s, tag):
    keep = [v.clone() for v in (x, m, s)]
    ok, r = t.attempt(tag + " compress", g.compress, x, s, m)
    if not ok:
        return None
    q, st = r
    want = want_q(x, m)
    t.check(q.shape == x.shape and torch.equal(q, want), f"{tag}: reported quantised value is not the value rounded around the rounded mean")
    t.check(len(st) == x.shape[0], f"{tag}: {len(st)} strings for a batch of {x.shape[0]}")
    ok, d = t.attempt(tag + " decompress", g.decompress, st, s, m)
    if ok:
        bad = (d != want).nonzero()
        if not t.check(d.shape == want.shape and bad.numel() == 0, f"{tag}: decoded values differ from the encoded ones"):
            if bad.numel():
                i = tuple(bad[0].tolist())
                t.problems[-1]["info"] = dict(x=float(x[i]), mean=float(m[i]), scale=float(s[i]), got=float(d[i]), want=float(want[i]))
    with torch.no_grad():
        for mode, was in ((False, True), (None, False)):
            g.train(was)
            ok, r = t.attempt(tag + " eval pass", g.forward, x, s, m, mode)
            if ok:
                t.check(torch.equal(r[0], want), f"{tag}: evaluation pass quantises differently from the coder")
                t.check(r[1].shape == x.shape and bool(((r[1] > 0) & (r[1] <= 1 + 1e-6)).all()), f"{tag}: likelihood outside (0,1]")
        g.eval()
        torch.manual_seed(3)
        ok, r = t.attempt(tag + " train pass", g.forward, x, s, m, True)
        if ok:
            t.check(float((r[0] - want).abs().max()) <= 1e-2, f"{tag}: training pass quantises differently from the coder")
            t.check(bool(((r[1] > 0) & (r[1] <= 1 + 1e-6)).all()), f"{tag}: training likelihood outside (0,1]")
    for a, b in zip(keep, (x, m, s)):
        t.check(torch.equal(a, b), f"{tag}: input modified")
    t.trace()
    t.state([bytes(b) for b in st])
    return st


def run_case(t, case):
    k = case["kind"]
    if k in ("lossless", "default"):
        cfg = (256, 0.01, 100, 2 ** -8) if k == "default" else CONFIGS[case["cfg"]]
        g = make(cfg)
        g.update()
        x, m, s = grid()
        xf = x.reshape(len(OFFS), -1, len(SCALES))
        mf, sf = m.reshape_as(xf), s.reshape_as(xf)
        st = lossless(t, g, xf, mf, sf, f"cfg={cfg} full lattice")
        t.state(cfg, "lattice", xf)
        # batch independence
        for i in range(0, xf.shape[0], 7 if k != "default" else 1000):
            ok, r = t.attempt("compress alone", g.compress, xf[i:i + 1], sf[i:i + 1], mf[i:i + 1])
            if ok and st is not None:
                t.check(bytes(r[1][0]) == bytes(st[i]), f"cfg={cfg}: string of row {i} depends on its batch")
        # straight-through gradient
        xg = xf.clone().requires_grad_(True)
        y, _ = g(xg, sf, mf, True)
        y.sum().backward()
        t.check(torch.equal(xg.grad, torch.ones_like(xg)), f"cfg={cfg}: training quantisation is not straight-through")
    elif k == "tables":
        from compressai.entropy_models import EntropyModel
        cfg = CONFIGS[case["cfg"]]
        g = make(cfg)
        g.update()
        ems = [e for e in g.modules() if isinstance(e, EntropyModel)]
        t.check(len(ems) == 1, "one entropy model")
        em = ems[0]
        cdf, ln = em.quantized_cdf, em.cdf_length.reshape(-1)
        t.check(cdf.shape[0] == cfg[0] * cfg[2] == ln.numel() == em.offset.numel(), f"cfg={cfg}: table count")
        for i in range(cdf.shape[0]):
            row = cdf[i, :int(ln[i])].tolist()
            t.check(row[0] == 0 and row[-1] == 65536 and all(b > a for a, b in zip(row, row[1:])),
                    f"cfg={cfg}: table {i} is not a strictly increasing cumulative table from 0 to 65536")
            t.state(cfg, row, int(em.offset.reshape(-1)[i]))
            t.step()
        # the table used for a (mean, scale) is the distribution the evaluation pass reports
        cap = []
        orig = em.compress

        def spy(inputs, indexes):
            cap.append(indexes.clone())
            return orig(inputs, indexes)
        em.compress = spy
        nm = cfg[2]
        means = [0.0] if nm == 1 else [(j + 1e-3) / nm - 0.5 for j in range(nm)]
        scs = [-60.0, -9.0, -3.0, -1.0, 0.0, 0.7, 2.0, 5.0, 12.0, 40.0, 100.0, 200.0]
        m = torch.tensor(means).view(1, -1, 1).expand(1, nm, len(scs)).contiguous()
        s = torch.tensor(scs).view(1, 1, -1).expand(1, nm, len(scs)).contiguous()
        try:
            g.compress(m.clone(), s, m)
        finally:
            del em.compress
        idx = cap[0].reshape(nm, len(scs))
        t.check(len(cap) == 1, "one coder call")
        ratio = (256.0 / cfg[1] + 1) ** (1.0 / (cfg[0] - 1))
        for a in range(nm):
            for b in range(len(scs)):
                i = int(idx[a, b])
                n = int(ln[i]) - 2
                off = int(em.offset.reshape(-1)[i])
                row = np.diff(np.array(cdf[i, :n + 2].tolist())) / 65536
                sg = float(softplus(scs[b]))
                mu = means[a] if nm > 1 else 0.0
                ks = np.arange(off, off + n)
                tag = f"cfg={cfg} mean={means[a]} scale={scs[b]} table {i}"
                best = 9.0
                # the bin's scale is within one bin of the requested one
                for sgx in np.geomspace(max(sg / ratio, cfg[1] * 0.999), max(sg * ratio, cfg[1] * 1.001), 41):
                    pk = sps.norm.cdf((ks + .5 - mu) / sgx) - sps.norm.cdf((ks - .5 - mu) / sgx)
                    best = min(best, float(np.abs(row[:-1] - pk).max() / max(pk.max(), 1e-9)))
                t.step()
                t.check(best <= 0.06 + 2.0 / nm / max(1.0, sg) * 0.01 + 0.02 * (ratio > 1.5), f"{tag}: cells differ from the discretised normal by {best:.3f} of the peak")
                # tails: the support reaches the two tail quantiles
                sdt = float(np.sqrt(max(0.0, (row[:-1] * (ks - mu) ** 2).sum() / row[:-1].sum() - 1 / 12)))
                q = -sps.norm.ppf(cfg[3] / 2)
                if sg > 2 and sg < 250:
                    t.check(off <= mu - q * sdt * 0.999 + 0.05 and off + n - 1 >= mu + q * sdt * 0.999 - 0.05,
                            f"{tag}: support {off}..{off + n - 1} does not reach the tails {mu - q * sdt:.2f}..{mu + q * sdt:.2f}")
                    t.check(row[-1] <= cfg[3] * 6 + 1e-3, f"{tag}: escape probability {row[-1]}")
    elif k == "likelihood":
        cfg = CONFIGS[case["cfg"]]
        g = make(cfg)
        g.update()
        nm = cfg[2]
        ratio = (256.0 / cfg[1] + 1) ** (1.0 / (cfg[0] - 1))  # one scale bin
        ks = torch.arange(-1600, 1601, dtype=torch.float32)
        for mean in MEANS:
            for sc in SCALES:
                m = torch.full_like(ks, mean)
                s = torch.full_like(ks, sc)
                x = ks + m.round()
                with torch.no_grad():
                    _, p = g(x, s, m, False)
                t.step()
                p = p.double().numpy()
                sigma = min(float(softplus(sc)) + cfg[1], 256.0 + cfg[1])
                p = np.where(p <= 2e-9, 0.0, p)  # the likelihood floor is not part of the distribution
                tot = p.sum()
                tag = f"cfg={cfg} mean={mean} scale={sc}"
                t.check(abs(tot - 1) < 2e-3 + 1e-9 * len(ks), f"{tag}: probabilities of the integers sum to {tot}")
                # the distribution is the discretised normal up to the grid resolution
                mu_k = (p * ks.double().numpy()).sum() / tot
                frac = mean - round(mean)
                if nm == 1:
                    frac, mtol = 0.0, 1e-3
                else:
                    mtol = 1.0 / nm + 1e-3
                t.check(abs(mu_k - frac) <= mtol + 0.5 * (sigma < 1.2), f"{tag}: distribution is centred at {mu_k}, expected {frac}")
                sd = math.sqrt(max(0.0, (p * (ks.double().numpy() - mu_k) ** 2).sum() / tot))
                if sigma > 1 and sigma < 250:
                    ex = math.sqrt(sigma ** 2 + 1 / 12)
                    t.check(ex / ratio * 0.99 <= sd <= ex * ratio * 1.01, f"{tag}: spread {sd}, expected {ex} within one bin ({ratio:.2f}x)")
                # unimodal around the mean
                c = 1600
                left, right = p[:c], p[c + 1:]
                t.check(bool((np.diff(left) >= -1e-7).all() and (np.diff(right) <= 1e-7).all()), f"{tag}: likelihood is not unimodal")
                t.state(cfg, mean, sc)
    elif k == "rate":
        # coded length of a block of equal symbols vs the model's own likelihood
        cfg = CONFIGS[case["cfg"]]
        g = make(cfg)
        g.update()
        n = 600
        ratio = (256.0 / cfg[1] + 1) ** (1.0 / (cfg[0] - 1))
        for mean in (0.0, 0.2, -0.3, 0.45, 5.1):
            for sc in (-1.0, 0.0, 1.0, 5.0, 30.0):
                for off in (0, 1, -1, 2):
                    m = torch.full((1, 1, n), mean)
                    s = torch.full((1, 1, n), sc)
                    sigma = float(softplus(sc)) + cfg[1]
                    x = m.round() + round(off * sigma)
                    st = g.compress(x, s, m)[1]
                    bits = 8 * len(st[0]) / n
                    # admissible likelihoods: mean within one mean bin, scale within one scale bin
                    k0 = float(x[0, 0, 0] - m.round()[0, 0, 0])
                    fr = mean - round(mean)
                    mus = np.linspace(fr - 1.0 / cfg[2], fr + 1.0 / cfg[2], 9) if cfg[2] > 1 else np.array([0.0])
                    sgs = sigma * np.geomspace(1 / ratio, ratio, 9)
                    pr = [sps.norm.cdf((k0 + .5 - mu) / sg) - sps.norm.cdf((k0 - .5 - mu) / sg) for mu in mus for sg in sgs]
                    lo, hi = -math.log2(min(1, max(pr))), -math.log2(max(1e-300, min(pr)))
                    t.step()
                    tag = f"cfg={cfg} mean={mean} scale={sc} symbol={k0}"
                    # rare symbols may use the escape code: only an upper bound of cost matters there
                    if hi < 9 and abs(off) < 2:
                        t.check(lo * 0.97 - 0.02 <= bits <= hi * 1.03 + 32 * 8 / n + 0.3,
                                f"{tag}: {bits:.3f} bits/symbol, the model's likelihood implies {lo:.3f}..{hi:.3f}")
                    t.state(cfg, mean, sc, off, len(st[0]))
    elif k == "shapes":
        g = make(CONFIGS[0])
        g.update()
        for shp in itertools.chain(itertools.product((1, 2, 3), (1, 3), (1, 4)), itertools.product((1, 2), (1, 2), (1, 3), (1, 2)),
                                   itertools.product((1, 3), (1, 5))):
            if np.prod(shp[1:]) < 4:
                continue  # compressai's encoder corrupts its heap for such tiny messages
            n = int(np.prod(shp))
            i = torch.arange(n, dtype=torch.float32).reshape(shp)
            x, m, s = (i * 7.3) % 23 - 11, (i * 1.7) % 5 - 2.4, (i * 0.9) % 9 - 4
            lossless(t, g, x, m, s, f"shape {shp}")
    elif k == "history":
        base = make(CONFIGS[0])
        base.update()
        i = torch.arange(24, dtype=torch.float32)
        data = {"A": ((i * 7.3 % 23 - 11).reshape(2, 3, 4), (i * 1.7 % 5 - 2.4).reshape(2, 3, 4), (i * 0.9 % 9 - 4).reshape(2, 3, 4)),
                "B": ((i * 3.1 % 300 - 150).reshape(1, 6, 4), (i * 2.3 % 7 - 3).reshape(1, 6, 4), (i * 1.3 % 30 - 25).reshape(1, 6, 4))}
        gold = {n: [bytes(b) for b in base.compress(x, s, m)[1]] for n, (x, m, s) in data.items()}
        for rest in itertools.product(OPS, repeat=case["depth"] - 1):
            seq = (case["first"],) + rest
            if seq[-1][0] not in "cd":
                continue
            g = copy.deepcopy(base)
            for op in seq:
                t.step()
                try:
                    if op[0] == "c":
                        x, m, s = data[op[1]]
                        t.check([bytes(b) for b in g.compress(x, s, m)[1]] == gold[op[1]], f"after {seq}: different bitstream")
                    elif op[0] == "d":
                        x, m, s = data[op[1]]
                        t.check(torch.equal(g.decompress(gold[op[1]], s, m), want_q(x, m)), f"after {seq}: decoded values differ")
                    elif op == "up":
                        g.update(force=False)
                    elif op == "upf":
                        g.update(force=True)
                    elif op == "fwd":
                        g(data["A"][0], data["A"][2], data["A"][1])
                    elif op == "train":
                        g.train()
                    elif op == "eval":
                        g.eval()
                except Exception as e:  # noqa: BLE001
                    t.fail(f"history {seq}: {op} raised {type(e).__name__}: {e}")
                    return
            t.state(seq)
            t.trace()
            if len(t.problems) > 3:
                return


if __name__ == "__main__":
    core.main(sys.modules[__name__])
