"""C17: continuous entropy layer: full option lattice, tables of a lattice of priors, quantisation."""
import itertools
import math
import sys
import numpy as np
import scipy.stats as st
import torch
import torch.distributions as D
from . import core

PID = "C17"
ASSUMPTIONS = ["tables start at zero when the prior extends below zero (known finding F-C17: pinned by the repository's own tests); coverage of the lower tail is required only where the lower tail is not negative",
               "compressai's pmf quantisation is trusted up to one count per symbol"]


def bounds(tier):
    return "all 2^9 option combinations x 2 priors x coding ranks; priors: 3 families x 9 locations x 4 scales x plain/noisy x 6 batch shapes x 3 tail masses x 4 precisions (each batch element checked); quantisation: lattice of step 1/16 on [-6,6] and neighbours x 9 offsets"


def cases(tier):
    for comp, stl in itertools.product((False, True), repeat=2):
        for pr in ("none", "noisy", "plain"):
            yield {"kind": "options", "comp": comp, "stl": stl, "prior": pr}
    for fam in ("normal", "laplace", "logistic"):
        for noisy in (True, False):
            for tm in (2 ** -8, 0.05, 1e-3):
                yield {"kind": "tables", "fam": fam, "noisy": noisy, "tm": tm}
    yield {"kind": "quantize"}
    yield {"kind": "negative"}
    yield {"kind": "empty"}
    yield {"kind": "state"}


def dist(fam, a, b):
    if fam == "normal":
        return D.Normal(a, b), lambda a, b: st.norm(a, b)
    if fam == "laplace":
        return D.Laplace(a, b), lambda a, b: st.laplace(a, b)
    a, b = torch.as_tensor(a), torch.as_tensor(b)
    u = D.Uniform(torch.zeros_like(a), torch.ones_like(a))
    return D.TransformedDistribution(u, [D.SigmoidTransform().inv, D.AffineTransform(a, b)]), lambda a, b: st.logistic(a, b)


def run_options(t, case):
    from neuralcompression.distributions import NoisyNormal
    from neuralcompression.layers import ContinuousEntropy
    tab = torch.tensor([[0, 5, 9], [0, 1, 9], [0, 4, 9]], dtype=torch.int32)
    siz, off = torch.tensor([3, 3, 3], dtype=torch.int32), torch.tensor([-1, 0, 2], dtype=torch.int32)
    comp, stl = case["comp"], case["stl"]
    for shape, dt, c, s, o, mx, rank, tm, prec in itertools.product(
            (None, (3,), (2, 3)), (None, torch.float32, torch.float64), (None, tab), (None, siz), (None, off), (None, 16), (None, 0, 2), (2 ** -8, 0.01), (12, 16)):
        prior = {"none": None, "noisy": NoisyNormal(torch.tensor([4.0, 5.0, 6.5]), torch.ones(3)), "plain": D.Normal(torch.tensor([4.0, 5.0, 6.5]), torch.ones(3))}[case["prior"]]
        kw = dict(coding_rank=rank, compressible=comp, stateless=stl, prior=prior, tail_mass=tm, prior_shape=shape, prior_dtype=dt, cdfs=c, cdf_sizes=s, cdf_offsets=o,
                  maximum_cdf_size=mx, range_coder_precision=prec)
        bad = prior is None and (shape is None or dt is None)
        if comp:
            bad |= len({c is None, s is None, o is None}) > 1
            bad |= sum(v is not None for v in (prior, c, mx)) != 1
            bad |= mx is not None and stl
        else:
            bad |= any(v is not None for v in (c, s, o, mx))
        desc = {k: (v if not isinstance(v, torch.Tensor) else "given") for k, v in kw.items() if k != "prior"} | {"prior": case["prior"]}
        t.state(str(desc))
        t.trace()
        if bad:
            t.must_raise(f"inconsistent options {desc}", ValueError, ContinuousEntropy, **kw)
            continue
        ok, m = t.attempt(f"consistent options {desc}", ContinuousEntropy, **kw)
        if not ok:
            return
        want_shape = torch.Size((3,)) if prior is not None else torch.Size(shape)
        t.check(m.coding_rank == rank and m.compressible == comp and m.stateless == stl and m.tail_mass == tm and m.range_coder_precision == prec,
                f"declared properties do not match the arguments {desc}")
        t.check(m.prior_shape == want_shape and m.context_shape[len(m.context_shape) - len(want_shape):] == want_shape, f"prior shape {m.prior_shape} for {desc}")
        t.check(m.prior_dtype == (torch.float32 if prior is not None else dt), f"prior dtype {m.prior_dtype} for {desc}")
        if prior is None:
            t.must_raise("prior of a layer without one", RuntimeError, lambda: m.prior)
        else:
            ok, p = t.attempt("prior accessor", lambda: m.prior)
            t.check(ok and p is prior, "prior accessor returns another object")
            del m.prior
            t.must_raise("prior after deletion", RuntimeError, lambda: m.prior)
        for nm, v in (("cdfs", c), ("cdf_sizes", s), ("cdf_offsets", o)):
            if not comp:
                t.must_raise(f"{nm} of a layer that cannot compress", RuntimeError, lambda: getattr(m, nm))
            else:
                ok, w = t.attempt(nm, lambda: getattr(m, nm))
                if ok and v is not None:
                    t.check(torch.equal(w, v), f"{nm} differ from the given ones")
                if ok:
                    t.check(w.dtype == torch.int32, f"{nm} are {w.dtype}")
        for nm in ("compress", "decompress"):
            t.must_raise(nm, NotImplementedError, getattr(m, nm))
    t.sample({"options": case})


LOCS = [-3.25, 0.0, 0.3, 0.5, 2.0, 7.75, 12.5, 20.1, 40.0]
SCALES = [0.2, 1.0, 2.5, 0.05]


def run_tables(t, case):
    from neuralcompression.distributions import UniformNoise
    from neuralcompression.layers import ContinuousEntropy
    tm = case["tm"]
    par = list(itertools.product(LOCS, SCALES))
    groups = [((), [p]) for p in par] + [((1,), [p]) for p in par[::5]]
    groups += [((4,), par[i:i + 4]) for i in range(0, 36, 4)] + [((2, 3), par[i:i + 6]) for i in range(0, 36, 6)] + [((3, 1), par[i:i + 3]) for i in range(0, 36, 9)] + [((36,), par)]
    for (shape, ps), prec in itertools.product(groups, (8, 12, 14, 16)):
        if case["fam"] != "normal" and prec in (8, 14):
            continue
        a = torch.tensor([p[0] for p in ps]).reshape(shape)
        b = torch.tensor([p[1] for p in ps]).reshape(shape)
        base, ref = dist(case["fam"], a, b)
        prior = UniformNoise(base) if case["noisy"] else base
        need = 0
        ok, m = t.attempt(f"tables for {case} {ps} precision {prec}", ContinuousEntropy, compressible=True, prior=prior, tail_mass=tm, range_coder_precision=prec)
        if not ok:
            return
        t.trace()
        cdfs, sizes, offs = m.cdfs, m.cdf_sizes, m.cdf_offsets
        n = len(ps)
        desc = f"{case['fam']} noisy={case['noisy']} tail {tm} precision {prec} batch {shape}"
        if not t.check(tuple(sizes.shape) == (n,) and tuple(offs.shape) == (n,) and cdfs.dim() == 2 and cdfs.shape[0] == n, f"table shapes {tuple(cdfs.shape)} {tuple(sizes.shape)} {tuple(offs.shape)} for {desc}"):
            continue
        for i, (loc, sc) in enumerate(ps):
            s = ref(loc, sc)
            k, o = int(sizes[i]), int(offs[i])
            row = cdfs[i].tolist()
            d = f"{desc} element {i} (loc {loc}, scale {sc})"
            t.state(case["fam"], case["noisy"], tm, prec, shape, loc, sc)
            if not t.check(3 <= k <= len(row), f"table size {k} for {d}"):
                continue
            c = row[:k]
            t.check(c[0] == 0 and c[-1] == 2 ** prec and all(x < y for x, y in zip(c, c[1:])), f"table of {d} is not strictly increasing from 0 to 2^{prec}: {c}")
            # base mean; logistic's mean is undefined for torch (offset zero)
            mean = loc if case["fam"] != "logistic" else 0.0
            off = float(np.float32(mean) - np.round(np.float32(mean)))
            first, last = o + off, o + k - 3 + off
            t.check(s.sf(last + 1e-4 * sc + 1e-4) <= tm / 2 * 1.01 + 1e-6, f"mass above the table of {d} is {s.sf(last)}, more than {tm / 2}")
            t.check(s.sf(last - 1 - 1e-4) >= tm / 2 * 0.99 or k == 3, f"table of {d} extends past the tail: last symbol {last}")
            if s.ppf(tm / 2) - off > 0:
                t.check(s.cdf(first - 1e-4 * sc - 1e-4) <= tm / 2 * 1.01 + 1e-6, f"mass below the table of {d} is {s.cdf(first)}, more than {tm / 2}")
                t.check(s.cdf(first + 1 + 1e-4) >= tm / 2 * 0.99 or k == 3, f"table of {d} extends past the lower tail: first symbol {first}")
            x = first + np.arange(k - 2)
            p = (s.cdf(x + .5) - s.cdf(x - .5)) if case["noisy"] else s.pdf(x)
            ov = max(0.0, 1 - p.sum())
            from compressai._CXX import pmf_to_quantized_cdf
            want = np.diff(np.array(pmf_to_quantized_cdf(np.append(p, ov).astype(np.float32).tolist(), prec))) / 2 ** prec
            f = np.diff(np.array(c)) / 2 ** prec
            err = np.abs(f - want)
            # float rounding of a probability moves single counts; the last symbol collects them
            tol = np.full(k - 1, 2.5 / 2 ** prec) + 2e-4 * want + 1e-6
            tol[np.argmax(want)] += k / 2 ** prec
            tol[-1] += k / 2 ** prec
            t.check(bool((err <= tol).all()), f"table of {d} gives {np.round(f, 5).tolist()[:12]} but the probabilities are {np.round(want, 5).tolist()[:12]}")


def run_quantize(t):
    from neuralcompression.layers import ContinuousEntropy
    xs = np.arange(-96, 97) / 16
    xs = np.unique(np.concatenate([xs] + [[np.nextafter(np.float32(v), np.float32(9)), np.nextafter(np.float32(v), np.float32(-9))] for v in (-2.5, -1.5, -.5, .5, 1.5, 2.5)] + [[1000.4, -1000.6, 1e6 + .25]])).astype(np.float32)
    x = torch.from_numpy(xs)
    for off in (None, 0.0, 0.25, -0.25, 0.5, -0.5, 0.3, 0.125, "vector"):
        o = None if off is None else (torch.arange(len(xs)) % 8 / 16 - 0.25 if off == "vector" else torch.tensor(off))
        for shape in ((len(xs),), (1, len(xs)), (len(xs), 1)):
            y = x.reshape(shape).clone()
            oo = o if o is None or o.dim() == 0 else o.reshape(shape)
            keep = y.clone()
            idx = torch.zeros(shape, dtype=torch.int32)
            ok, q = t.attempt("quantize", ContinuousEntropy.quantize, y, idx, oo) if off is not None else t.attempt("quantize", ContinuousEntropy.quantize, y, idx)
            if not ok:
                return
            z = y if oo is None else y - oo
            t.check(q.dtype == torch.int32 and tuple(q.shape) == shape, f"quantised values are {q.dtype} {tuple(q.shape)}")
            t.check(bool(((q.double() - z.double()).abs() <= 0.5 + 1e-6 * z.abs().double()).all()), f"quantised value is not the nearest integer around the offset {off}")
            t.check(torch.equal(q.float(), torch.round(z)), f"rounding convention changed for offset {off}")
            t.check(torch.equal(y, keep), "quantize modified its input")
            back = q.float() if oo is None else q.float() + oo
            t.check(torch.equal(ContinuousEntropy.quantize(back, idx, oo), q), f"quantised values are not reproduced from their reconstruction (offset {off})")
            t.state(str(off), shape)
            t.trace()


def run_negative(t):
    """known finding: the part of a prior below zero is left out of its table"""
    from neuralcompression.distributions import NoisyNormal
    from neuralcompression.layers import ContinuousEntropy
    m = ContinuousEntropy(compressible=True, prior=NoisyNormal(torch.tensor([0.0]), torch.tensor([1.0])))
    t.check(int(m.cdf_offsets[0]) <= -3, "table of NoisyNormal(0,1) starts at zero: the lower half of the distribution is only covered by the overflow symbol", key="NoisyNormal(0,1) table offset 0")
    t.state("neg")
    t.trace()


def run_empty(t):
    from neuralcompression.layers import ContinuousEntropy
    for shape in ((32,), (2, 3)):
        ok, m = t.attempt("empty tables", ContinuousEntropy, compressible=True, prior_shape=shape, prior_dtype=torch.float32, maximum_cdf_size=16)
        if not ok:
            continue
        t.check(m.cdfs.shape[0] == int(np.prod(shape)) and m.cdf_sizes.numel() == int(np.prod(shape)),
                f"empty tables for prior shape {shape} have shapes {tuple(m.cdfs.shape)}, {tuple(m.cdf_sizes.shape)}", key=f"maximum_cdf_size prior_shape={shape}")
        t.check(m.cdfs.shape[1] == 16 and int(m.cdfs.abs().sum()) == 0, "empty tables are not empty")
        t.state(shape)


def run_state(t):
    """tables travel with the layer's state"""
    import copy
    import io
    from neuralcompression.distributions import NoisyNormal
    from neuralcompression.layers import ContinuousEntropy
    for locs in ([10.0, 20.0], [5.0, 5.5]):
        a = ContinuousEntropy(compressible=True, prior=NoisyNormal(torch.tensor(locs), torch.tensor([1.0, 2.0])))
        e = ContinuousEntropy(compressible=True, prior=NoisyNormal(torch.tensor(locs), torch.tensor([1.0, 2.0])), tail_mass=2 ** -8, range_coder_precision=12)
        t.check(torch.equal(a.cdfs, e.cdfs) and torch.equal(a.cdf_sizes, e.cdf_sizes) and torch.equal(a.cdf_offsets, e.cdf_offsets), "the default table is not that of a tail mass of 2^-8 and 12 bits")
        sd = a.state_dict()
        b = ContinuousEntropy(compressible=True, prior_shape=(2,), prior_dtype=torch.float32, cdfs=torch.zeros_like(a.cdfs), cdf_sizes=torch.zeros_like(a.cdf_sizes), cdf_offsets=torch.zeros_like(a.cdf_offsets))
        buf = io.BytesIO()
        torch.save(sd, buf)
        buf.seek(0)
        b.load_state_dict(torch.load(buf))
        c = copy.deepcopy(a)
        for m in (b, c):
            t.check(torch.equal(m.cdfs, a.cdfs) and torch.equal(m.cdf_sizes, a.cdf_sizes) and torch.equal(m.cdf_offsets, a.cdf_offsets), "tables lost in saving and restoring")
        t.state(str(locs))
        t.trace()


def run_case(t, case):
    torch.set_num_threads(1)
    k = case["kind"]
    if k in ("options", "tables"):
        globals()["run_" + k](t, case)
    else:
        globals()["run_" + k](t)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
