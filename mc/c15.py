"""C15: uniform-noise distributions against float64 CDF differences on lattices of families, parameters, shapes and points."""
import itertools
import math
import sys
import numpy as np
import scipy.special as sp
import scipy.stats as st
import torch
import torch.distributions as D
from . import core
from .c16 import FAMS, PARAMS

PID = "C15"
ASSUMPTIONS = ["base distributions with a cdf; accuracy is that of the base distribution's own single or double precision cdf (survival of normals is single precision by design)",
               "random noise is observed for fixed seeds only: range, independence per element and shape are checked, the generator itself is trusted"]
LOCFAMS = ["normal", "laplace", "cauchy", "logistic", "gumbel", "uniform", "exponential", "halfnormal", "lognormal", "noisynormal"]


def bounds(tier):
    return "10 base families x 5 parameter pairs x scalar and batched shapes x single/double precision x %d points (centre, edges, far tails); integer grids at %d offsets; all sample shapes x batch shapes of rank <= 2" % ((161, 9) if tier == "quick" else (641, 33))


def cases(tier):
    for f in LOCFAMS:
        for i in range(len(PARAMS)):
            yield {"kind": "density", "f": f, "p": i, "n": 161 if tier == "quick" else 641}
            yield {"kind": "grid", "f": f, "p": i, "n": 9 if tier == "quick" else 33}
        yield {"kind": "delegate", "f": f}
        yield {"kind": "shape", "f": f}
    yield {"kind": "sample"}
    yield {"kind": "far"}
    yield {"kind": "empty"}


def make(fam, a, b, dt=torch.float32):
    from neuralcompression.distributions import NoisyNormal, UniformNoise
    a, b = torch.as_tensor(a, dtype=dt), torch.as_tensor(b, dtype=dt)
    if fam == "noisynormal":
        return NoisyNormal(a, b), D.Normal(a, b)
    if fam == "uniform":
        base = D.Uniform(a, a + b, validate_args=False)
    elif fam == "gumbel":
        base = D.Gumbel(a, b, validate_args=False)
        base.base_dist._validate_args = False
    elif fam == "exponential":
        base = D.Exponential(1 / b, validate_args=False)
    else:
        base = FAMS[fam][0](a, b)
    return UniformNoise(base), base


def ref(fam):
    return FAMS["normal" if fam == "noisynormal" else fam][1]


def ok_point(fam, a, b, x):
    """the base cdf of torch is only defined on its support for one-sided families"""
    if fam in ("exponential", "halfnormal", "lognormal"):
        return x - 0.5 > 1e-6
    return True


def mass(s, x):
    lo, hi = x - 0.5, x + 0.5
    c = s.cdf(hi) - s.cdf(lo)
    u = s.sf(lo) - s.sf(hi)
    return np.where(s.cdf(lo) > 0.5, u, c)


def run_density(t, case):
    fam = case["f"]
    a, b = PARAMS[case["p"]]
    s = ref(fam)(a, b)
    core_pts = np.unique(np.concatenate([np.linspace(a - 6 * b - 2, a + 6 * b + 2, case["n"]), np.arange(-6, 7) * 0.5, [a, a + .5, a - .5, a + b, a + b + .5]]))
    pts = np.array([x for x in core_pts if ok_point(fam, a, b, x)])
    for dt, eps in ((torch.float32, 1.2e-7), (torch.float64, 2.3e-16)):
        d, base = make(fam, a, b, dt)
        x = torch.from_numpy(pts).to(dt)
        px = x.double().numpy()
        r = mass(s, px)
        ok, p = t.attempt(f"prob {fam}{(a, b)}", d.prob, x)
        ok2, lp = t.attempt(f"log_prob {fam}{(a, b)}", d.log_prob, x)
        if not (ok and ok2):
            return
        p, lp = p.double().numpy(), lp.double().numpy()
        normal = fam in ("normal", "noisynormal")
        # conditioning: the argument of the cdf carries an error of eps*|x|/b
        peak = float(np.max(s.pdf(np.clip(px, *np.sort([a - .3 * b, a + b]))))) if fam != "uniform" else 1 / b
        ptol = (1.2e-7 if normal else eps) * 8 + eps * 4 * (np.abs(px) + 1) * min(peak, 1 / b + 1) + (1e-5 * r if normal else 0)
        bad = ~(np.abs(p - r) <= ptol) | (p < -ptol) | (p > 1 + ptol)
        t.check(not bad.any(), f"prob of noisy {fam}{(a, b)} {dt} at {px[bad][:2]}: {p[bad][:2]} instead of {r[bad][:2]}")
        e = np.exp(lp)
        ltol = ptol if not normal else ptol + 1e-6 * r
        bad = ~(np.abs(e - r) <= ltol * 2) | np.isnan(lp) | (lp > 2e-6)
        t.check(not bad.any(), f"log_prob of noisy {fam}{(a, b)} {dt} at {px[bad][:2]}: {lp[bad][:2]} instead of {np.log(r[bad][:2] + 1e-300)}")
        if normal:
            with np.errstate(all="ignore"):
                lr = ref_lognormal_mass((px - a) / b, 0.5 / b)
            lt = (2e-5 if dt == torch.float32 else 1e-8) * (1 + np.abs(lr)) + (eps * 8 * (np.abs(px) + np.abs(px - a)) / b * (np.abs(px - a) / b + 1))
            bad = ~(np.abs(lp - lr) <= lt)
            t.check(not bad.any(), f"log density of noisy normal{(a, b)} {dt} at {px[bad][:2]}: {lp[bad][:2]} instead of {lr[bad][:2]}")
            xg = x.clone().requires_grad_()
            d.log_prob(xg).sum().backward()
            g = xg.grad.double().numpy()
            with np.errstate(all="ignore"):
                gr = (np.exp(-0.5 * ((px + .5 - a) / b) ** 2 - lr) - np.exp(-0.5 * ((px - .5 - a) / b) ** 2 - lr)) / (b * math.sqrt(2 * math.pi))
            gt = np.abs(gr) * 1e-3 + 1e-3 / b + np.abs(px - a) / b ** 2 * (1e-2 if dt == torch.float32 else 1e-3)
            bad = ~(np.abs(g - gr) <= gt)
            t.check(not bad.any(), f"gradient of log_prob of noisy normal{(a, b)} {dt} at {px[bad][:2]}: {g[bad][:2]} instead of {gr[bad][:2]}")
        t.state(fam, a, b, str(dt))
        t.trace(len(px))
    t.sample({"family": fam, "params": (a, b), "points": len(pts)})


def ref_lognormal_mass(z, h):
    """log(Phi(z+h) - Phi(z-h)) in double precision, by symmetry in the lower tail"""
    z = -np.abs(z)
    up, lo = sp.log_ndtr(z + h), sp.log_ndtr(z - h)
    return up + np.log1p(-np.exp(lo - up))


def run_grid(t, case):
    fam = case["f"]
    a, b = PARAMS[case["p"]]
    s = ref(fam)(a, b)
    for k in range(case["n"]):
        off = -0.5 + k / case["n"]
        lo, hi = (math.floor(s.ppf(1e-4)) - 1, math.ceil(s.ppf(1 - 1e-4)) + 1)
        lo, hi = max(lo, -4000), min(hi, 4000)
        pts = np.arange(lo, hi + 1) + off
        pts = np.array([x for x in pts if ok_point(fam, a, b, x)])
        d, _ = make(fam, a, b, torch.float64)
        x = torch.from_numpy(pts)
        want = s.cdf(pts[-1] + .5) - s.cdf(pts[0] - .5)
        for nm, v in (("prob", d.prob(x)), ("exp(log_prob)", d.log_prob(x).exp())):
            tot = float(v.double().sum())
            t.check(abs(tot - want) < 2e-5 and tot < 1 + 2e-5, f"{nm} of noisy {fam}{(a, b)} on the grid offset {off} sums to {tot} instead of {want}")
        # density is a proper density: base CDF differences telescope
        t.state(fam, a, b, k)
        t.trace()


def run_delegate(t, case):
    """moments, cumulative, quantile and tail accessors are those of the base distribution"""
    import neuralcompression.functional as F
    fam = case["f"]
    for a, b in PARAMS + [([0.0, 2.5, -0.75], [1.0, 0.5, 3.0])]:
        d, base = make(fam, a, b, torch.float32)
        sh = base.batch_shape
        for nm in ("mean", "variance", "support"):
            try:
                r = getattr(base, nm)
            except NotImplementedError:
                continue
            v = getattr(d, nm)
            same = torch.equal(torch.nan_to_num(v), torch.nan_to_num(r)) if isinstance(r, torch.Tensor) else str(v) == str(r)
            t.check(same, f"{nm} of noisy {fam} is {v} instead of {r}")
        try:
            r = base.entropy()
            t.check(torch.equal(d.entropy(), r), f"entropy of noisy {fam}")
        except NotImplementedError:
            pass
        q = torch.tensor([0.1, 0.25, 0.5, 0.9]).view(-1, *([1] * len(sh)))
        x = base.icdf(q)
        t.check(torch.equal(d.icdf(q), x), f"icdf of noisy {fam}")
        c, sf, lc, ls = d.cdf(x), d.survival_function(x), d.log_cdf(x), d.log_survival_function(x)
        qq = q.expand_as(x)
        t.check(torch.equal(c, base.cdf(x)) and torch.allclose(c, qq, atol=2e-5), f"cdf of noisy {fam}: {c.flatten()[:4]}")
        t.check(torch.allclose(c + sf, torch.ones_like(c), atol=1e-5), f"cdf and survival of noisy {fam} are not complementary")
        t.check(torch.allclose(lc.exp(), c, atol=1e-5) and torch.allclose(ls.exp(), sf, atol=1e-5), f"log cdf/survival of noisy {fam}{(a, b)}: {lc.exp().flatten()[:4]} {ls.exp().flatten()[:4]}")
        t.check(bool((c[1:] >= c[:-1]).all()) and bool((sf[1:] <= sf[:-1]).all()) and bool((lc[1:] >= lc[:-1]).all()) and bool((ls[1:] <= ls[:-1]).all()), f"monotonicity of noisy {fam}")
        for tm in (0.5, 2 ** -8):
            for nm, f in (("lower_tail", F.lower_tail), ("upper_tail", F.upper_tail)):
                t.check(torch.equal(getattr(d, nm)(tm), f(base, tm)), f"{nm} of noisy {fam}")
            lt, ut = d.lower_tail(tm), d.upper_tail(tm)
            t.check(torch.allclose(base.cdf(lt), torch.full_like(lt, tm / 2), atol=2e-5, rtol=1e-3), f"mass below lower tail of noisy {fam}")
            t.check(torch.allclose(1 - base.cdf(ut), torch.full_like(ut, tm / 2), atol=2e-5, rtol=1e-3), f"mass above upper tail of noisy {fam}")
        t.check(torch.equal(torch.as_tensor(d.quantization_offset), torch.as_tensor(F.quantization_offset(base))), "quantization offset")
        o = d.quantization_offset
        t.check(bool((o.abs() <= 0.5).all()), f"quantization offset {o} out of range")
        t.must_raise("enumerate_support", NotImplementedError, d.enumerate_support)
        t.state(fam, str(a))
        t.trace()


def run_shape(t, case):
    fam = case["f"]
    for sh in ((), (1,), (3,), (2, 3), (3, 1)):
        n = int(np.prod(sh)) if sh else 1
        a = torch.tensor([PARAMS[i % 5][0] for i in range(n)]).reshape(sh)
        b = torch.tensor([PARAMS[(i * 2) % 5][1] for i in range(n)]).reshape(sh)
        d, base = make(fam, a, b)
        t.check(d.batch_shape == torch.Size(sh) and d.event_shape == torch.Size(()), f"batch/event shape of noisy {fam}: {tuple(d.batch_shape)}/{tuple(d.event_shape)} for parameters of shape {sh}")
        x = torch.tensor([1.5, 2.25, 7.0]).view(-1, *([1] * len(sh)))
        p, lp = d.prob(x), d.log_prob(x)
        want = (3,) + sh
        t.check(tuple(p.shape) == want and tuple(lp.shape) == want, f"prob/log_prob shape {tuple(p.shape)}/{tuple(lp.shape)} for batch {sh}")
        # every element equals the scalar distribution
        for idx in itertools.product(*[range(k) for k in sh]):
            di, _ = make(fam, a[idx], b[idx])
            t.check(torch.allclose(p[(slice(None),) + idx], di.prob(x.flatten()), rtol=1e-5, atol=1e-7)
                    and torch.allclose(lp[(slice(None),) + idx], di.log_prob(x.flatten()), rtol=1e-4, atol=1e-5, equal_nan=False), f"element {idx} of batched noisy {fam} differs from its scalar distribution")
        for tgt in ((4,) + sh, (2, 4) + sh):
            e = d.expand(torch.Size(tgt))
            t.check(e.batch_shape == torch.Size(tgt), f"expanded batch shape {tuple(e.batch_shape)}")
            xs = torch.full(tgt, 1.75)
            ok, v = t.attempt("expanded log_prob", e.log_prob, xs)
            if ok:
                t.check(torch.allclose(v, d.log_prob(torch.full(sh, 1.75)).expand(tgt), rtol=1e-5, atol=1e-6), f"log_prob after expand of noisy {fam} differs (noise lost?)")
        t.state(fam, sh)
        t.trace()
    if fam == "normal":
        from neuralcompression.distributions import UniformNoise
        for bs, es in (((), (2,)), ((3,), (2,)), ((4, 3), (5,))):
            m = D.MultivariateNormal(torch.zeros(bs + es), torch.eye(es[0]))
            u = UniformNoise(m)
            t.check(u.batch_shape == torch.Size(bs) and u.event_shape == torch.Size(es), f"shapes of a multivariate base: {u.batch_shape} {u.event_shape}")


def run_sample(t):
    from neuralcompression.distributions import NoisyNormal, UniformNoise
    for sh, ss in itertools.product(((), (1,), (3,), (2, 3), (64,)), ((), (1,), (5,), (4, 2), (64,))):
        loc = torch.arange(int(np.prod(sh)) if sh else 1).float().reshape(sh) % 7 * 2
        for nm, d in (("normal", NoisyNormal(loc, torch.full(sh, 1e-6))), ("laplace", UniformNoise(D.Laplace(loc, torch.full(sh, 1e-6))))):
            for meth in ("sample", "rsample"):
                torch.manual_seed(5)
                ok, v = t.attempt(f"{meth} {sh} {ss}", getattr(d, meth), torch.Size(ss))
                if not ok:
                    return
                t.check(tuple(v.shape) == ss + sh, f"{meth}({ss}) with batch {sh} has shape {tuple(v.shape)}")
                if tuple(v.shape) != ss + sh:
                    continue
                n = (v - loc).flatten()
                t.check(bool((n.abs() <= 0.501).all()), f"noise of {meth} leaves [-1/2, 1/2]: {n.abs().max()}")
                t.check(len(set(n.tolist())) >= n.numel() * 0.95, f"{meth}({ss}) with batch {sh} reuses the same noise for several elements")
                if n.numel() >= 4096:
                    t.check(abs(float(n.mean())) < 0.05 and abs(float(n.var()) - 1 / 12) < 0.01 and float(n.min()) < -.45 and float(n.max()) > .45, f"noise of {meth} is not uniform on the unit interval: mean {float(n.mean())} var {float(n.var())}")
                t.state(sh, ss, nm, meth)
                t.trace()
    torch.manual_seed(1)
    v = NoisyNormal(torch.tensor([-3.0, 4.0]), torch.tensor([2.0, 0.5])).sample(torch.Size((20000,)))
    t.check(bool((v.mean(0) - torch.tensor([-3.0, 4.0])).abs().max() < 0.15) and bool((v.var(0) - torch.tensor([4 + 1 / 12, .25 + 1 / 12])).abs().max() < 0.4), "sample moments")


def run_far(t):
    """densities far away: no NaN, correct logs for normals"""
    from neuralcompression.distributions import NoisyNormal
    for dt in (torch.float32, torch.float64):
        for a, b in PARAMS:
            zs = [12., 15., 20., 35., 60., 100., 1e3, 1e4]
            zs = np.array([z for m in zs for z in (m, -m)])
            x = torch.tensor(a + b * zs, dtype=dt)
            d = NoisyNormal(torch.tensor(a, dtype=dt), torch.tensor(b, dtype=dt))
            xg = x.clone().requires_grad_()
            v = d.log_prob(xg)
            v.sum().backward()
            z = (x.double().numpy() - a) / b
            z = -np.abs(z)
            h = 0.5 / b
            r = sp.log_ndtr(z + h) + np.log1p(-np.exp(sp.log_ndtr(z - h) - sp.log_ndtr(z + h)))
            tol = np.abs(r) * (1e-4 if dt == torch.float32 else 1e-8) + (np.abs(z) + h) * (np.abs(z) + 1) * (1e-6 if dt == torch.float32 else 1e-12)
            e = np.abs(v.detach().double().numpy() - r)
            t.check(bool((e <= tol).all()), f"log_prob of noisy normal{(a, b)} {dt} far from the mean: {v.tolist()} instead of {r.tolist()}")
            t.check(bool(torch.isfinite(xg.grad).all()), f"gradient of log_prob far from the mean {xg.grad.tolist()}")
            p = d.prob(x)
            t.check(bool(((p >= 0) & (p <= 1)).all()), f"prob far away {p.tolist()}")
            t.state(str(dt), a, b)
            t.trace(len(zs))


def run_empty(t):
    """points where a bounded base distribution has no mass, or all of it"""
    from neuralcompression.distributions import UniformNoise
    for lo, hi in ((0.0, 1.0), (-0.25, 0.25), (2.0, 6.0)):
        d = UniformNoise(D.Uniform(lo, hi, validate_args=False))
        x = torch.tensor([lo - 3, lo - 0.75, hi + 0.75, hi + 10, (lo + hi) / 2, lo, hi, lo - 0.25])
        w = np.array([max(0.0, min(hi, v + .5) - max(lo, v - .5)) / (hi - lo) for v in x.double().tolist()])
        p, lp = d.prob(x).double().numpy(), d.log_prob(x).double().numpy()
        with np.errstate(all="ignore"):
            t.check(np.abs(p - w).max() < 1e-6, f"prob of noisy uniform({lo},{hi}) {p} instead of {w}")
            t.check(not np.isnan(lp).any() and np.abs(np.exp(lp) - w).max() < 1e-6 and bool(((w == 0) <= (lp == -np.inf)).all()), f"log_prob of noisy uniform({lo},{hi}) at {x.tolist()}: {lp} instead of {np.log(w)}")
        t.state(lo, hi)
        t.trace()


def run_case(t, case):
    torch.set_num_threads(1)
    k = case["kind"]
    if k in ("density", "grid", "delegate", "shape"):
        globals()["run_" + k](t, case)
    else:
        globals()["run_" + k](t)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
