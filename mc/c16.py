"""C16: tail and log-probability helpers on exponent-covering lattices against extended precision."""
import itertools
import math
import sys
import mpmath as mp
import numpy as np
import scipy.stats as st
import torch
import torch.distributions as D
from . import core

PID = "C16"
CASE_LIMIT = 200
ASSUMPTIONS = ["survival_function and ndtr are single precision by design (pinned by the repository's tests); helpers of non-normal distributions are as accurate as the distribution's own cdf",
               "gradient based tail search is only used within about ten scales of the origin; tail masses >= 1e-5 (single precision quantile functions)"]
mp.mp.dps = 60


def bounds(tier):
    return ("normal helpers: every power of two in the representable range with its 3/2 multiple, both signs, linear lattice of step 1/%d on [-45,45], 4 floating-point neighbours of every switch-over point, infinities and NaN, single and double precision, values and gradients; "
            "13 distribution families x parameters x 400 points; tails for 12 families x 6 tail masses x batch shapes; estimated tails for logistic, mixture and cdf-only families" % (8 if tier == "quick" else 64))


SWITCH = [0.0, 1.0, -1.0, -10.0, 5.0, -20.0, 8.0, -5.0, 10.0, 15.0, math.sqrt(0.5), -math.sqrt(0.5), 20.0, -8.0]


def lattice(dt, tier, lim=None):
    fi = np.finfo(dt)
    xs = [0.0]
    lo, hi = (-149, 127) if dt == np.float32 else (-1074, 1023)
    step = 1 if dt == np.float32 else 3
    for e in range(lo, hi + 1, step):
        for m in (1.0, 1.5):
            v = math.ldexp(m, e)
            xs += [v, -v]
    k = 8 if tier == "quick" else 64
    xs += [i / k for i in range(-45 * k, 45 * k + 1)]
    for s in SWITCH:
        a = dt(s)
        up = dn = a
        xs.append(a)
        for _ in range(4):
            up, dn = np.nextafter(up, dt(np.inf)), np.nextafter(dn, dt(-np.inf))
            xs += [up, dn]
    xs = np.array(xs, dtype=dt)
    xs = np.unique(xs[np.isfinite(xs)])
    if lim:
        xs = xs[(xs >= lim[0]) & (xs <= lim[1])]
    return xs


_cache = {}


def ref_ncdf(x):
    x = mp.mpf(float(x))
    if x < -1e12:
        return mp.mpf(0)
    if x > 1e12:
        return mp.mpf(1)
    return mp.ncdf(x)


def ref_logncdf(x):
    x = mp.mpf(float(x))
    if x < -50:
        # convergent asymptotics to far below double precision
        s, term = mp.mpf(1), mp.mpf(1)
        for n in range(1, 12):
            term *= -(2 * n - 1) / x ** 2
            s += term
        return -x * x / 2 - mp.log(-x) - mp.log(2 * mp.pi) / 2 + mp.log(s)
    if x > 50:
        return -mp.exp(-x * x / 2) / (x * mp.sqrt(2 * mp.pi)) if x < 1e9 else mp.mpf(0)
    if x > 0:
        return mp.log1p(-mp.ncdf(-x))
    return mp.log(mp.ncdf(x))


FAMS = {
    "uniform": (lambda a, b: D.Uniform(a, a + b), lambda a, b: st.uniform(a, b)),
    "laplace": (lambda a, b: D.Laplace(a, b), lambda a, b: st.laplace(a, b)),
    "cauchy": (lambda a, b: D.Cauchy(a, b), lambda a, b: st.cauchy(a, b)),
    "gumbel": (lambda a, b: D.Gumbel(a, b), lambda a, b: st.gumbel_r(a, b)),
    "normal": (lambda a, b: D.Normal(a, b), lambda a, b: st.norm(a, b)),
    "logistic": (lambda a, b: D.TransformedDistribution(D.Uniform(torch.zeros_like(a), torch.ones_like(a)), [D.SigmoidTransform().inv, D.AffineTransform(a, b)]), lambda a, b: st.logistic(a, b)),
    "exponential": (lambda a, b: D.Exponential(1 / b), lambda a, b: st.expon(0, b)),
    "halfnormal": (lambda a, b: D.HalfNormal(b), lambda a, b: st.halfnorm(0, b)),
    "gamma": (lambda a, b: D.Gamma(b + 0.5, torch.ones_like(b)), lambda a, b: st.gamma(b + 0.5)),
    "lognormal": (lambda a, b: D.LogNormal(a, b), lambda a, b: st.lognorm(b, scale=np.exp(a))),
    "weibull": (lambda a, b: D.Weibull(b, torch.full_like(b, 1.5)), lambda a, b: st.weibull_min(1.5, scale=b)),
    "pareto": (lambda a, b: D.Pareto(b, torch.full_like(b, 2.0)), lambda a, b: st.pareto(2.0, scale=b)),
    "halfcauchy": (lambda a, b: D.HalfCauchy(b), lambda a, b: st.halfcauchy(0, b)),
}
SUPPORT = {"uniform": lambda a, b: (a, a + b), "exponential": lambda a, b: (0, np.inf), "halfnormal": lambda a, b: (0, np.inf),
           "gamma": lambda a, b: (1e-9, np.inf), "lognormal": lambda a, b: (1e-9, np.inf), "weibull": lambda a, b: (1e-9, np.inf),
           "pareto": lambda a, b: (b * 1.000001, np.inf), "halfcauchy": lambda a, b: (0, np.inf)}
PARAMS = [(0.0, 1.0), (3.0, 0.25), (-2.5, 2.0), (0.3, 7.0), (-0.5, 0.5)]


def cases(tier):
    for dt in ("float32", "float64"):
        n = 12
        for i in range(n):
            yield {"kind": "ndtr", "dt": dt, "part": i, "of": n, "tier": tier}
    yield {"kind": "special"}
    yield {"kind": "expm1", "tier": tier}
    for f in FAMS:
        yield {"kind": "family", "f": f}
        yield {"kind": "tails", "f": f}
    for i in range(4):
        yield {"kind": "estimate", "part": i}
    yield {"kind": "mixture"}
    yield {"kind": "estimate_raw"}
    yield {"kind": "nocdf"}
    yield {"kind": "offset"}


def run_ndtr(t, case):
    import neuralcompression.functional as F
    dt = np.dtype(case["dt"]).type
    xs = lattice(dt, case["tier"])[case["part"]::case["of"]]
    x = torch.from_numpy(xs.copy())
    # --- ndtr (single precision result)
    ok, v = t.attempt("ndtr", F.ndtr, x)
    if ok:
        v = v.double().numpy()
        for xi, vi in zip(xs, v):
            r = float(ref_ncdf(np.float32(xi)))
            tol = r * 5e-7 * (1 + min(float(xi) ** 2, 1e4) if abs(float(xi)) < 1e10 else 1) + 3e-45
            t.check(abs(vi - r) <= tol and 0 <= vi <= 1, f"ndtr({xi!r}) = {vi!r}, exact {r!r}")
    # --- log_ndtr and its gradient
    y = x.clone().requires_grad_()
    ok, v = t.attempt("log_ndtr", F.log_ndtr, y)
    if not ok:
        return
    v.sum().backward()
    t.check(v.dtype == x.dtype, f"log_ndtr changes the precision to {v.dtype}")
    g, v = y.grad.double().numpy(), v.detach().double().numpy()
    f32 = dt == np.float32
    fmax = float(np.finfo(dt).max)
    for xi, vi, gi in zip(xs, v, g):
        r = ref_logncdf(xi)
        rf = float(r) if abs(r) <= fmax else -math.inf
        xv = float(xi)
        if xv > 0:
            tol = (1.5e-7 if f32 else 3e-16) if xv <= (5 if f32 else 8) else abs(rf) * (5e-7 if f32 else 5e-14) * (1 + xv * xv if xv < 1e3 else 1) + (3e-45 if f32 else 3e-323)
        else:
            tol = abs(rf) * (4e-6 if f32 else 1e-10 if xv < -19 else 1e-13) if math.isfinite(rf) else 0
        good = (vi == rf) or (math.isfinite(vi) and math.isfinite(rf) and abs(vi - rf) <= tol)
        if not math.isfinite(rf) or abs(rf) > fmax / 4:
            good = vi <= -fmax / 8
        t.check(good and not vi > 0, f"log_ndtr({xi!r}) in {case['dt']} = {vi!r}, exact {rf!r}")
        if abs(xv) < (1e4 if f32 else 1e8):
            # d/dx log Phi = phi / Phi
            gr = float(mp.exp(-mp.mpf(xv) ** 2 / 2 - mp.log(2 * mp.pi) / 2 - r)) if xv < 300 else 0.0
            gt = gr * (3e-4 if f32 else 1e-6) + (1e-7 if f32 else 1e-15)
            t.check(math.isfinite(gi) and abs(gi - gr) <= gt, f"gradient of log_ndtr at {xi!r} in {case['dt']} = {gi!r}, exact {gr!r}")
        t.state(case["dt"], float(xi))
    t.trace(len(xs))
    # --- the public normal wrappers with parameters
    for loc, sc in ((0.0, 1.0), (1.5, 0.25), (-3.0, 4.0)):
        d = D.Normal(torch.tensor(loc, dtype=x.dtype), torch.tensor(sc, dtype=x.dtype))
        z = xs[np.abs(xs) < 40]
        pts = torch.from_numpy((z * dt(sc) + dt(loc)).astype(dt))
        std = ((pts - d.loc) / d.scale).numpy()
        lc, ls, sf = F.log_cdf(pts, d).double().numpy(), F.log_survival_function(pts, d).double().numpy(), F.survival_function(pts, d).double().numpy()
        t.step(3)
        for s_, a, b, c in zip(std, lc, ls, sf):
            ra, rb = float(ref_logncdf(s_)), float(ref_logncdf(-s_))
            tl = lambda r: abs(r) * (5e-6 if f32 else 1e-9) + (2e-7 if f32 else 1e-15)
            t.check(abs(a - ra) <= tl(ra), f"log_cdf Normal({loc},{sc}) at z={s_!r}: {a!r} vs {ra!r}")
            t.check(abs(b - rb) <= tl(rb), f"log_survival_function Normal({loc},{sc}) at z={s_!r}: {b!r} vs {rb!r}")
            rs = float(ref_ncdf(-np.float32(s_)))
            t.check(abs(c - rs) <= rs * 5e-7 * (1 + float(s_) ** 2) + 3e-45 and 0 <= c <= 1, f"survival_function Normal({loc},{sc}) at z={s_!r}: {c!r} vs {rs!r}")
    t.sample({"dtype": case["dt"], "points": len(xs), "first": float(xs[0])})


def run_special(t):
    import neuralcompression.functional as F
    inf = float("inf")
    for dt in (torch.float32, torch.float64):
        x = torch.tensor([inf, -inf, float("nan")], dtype=dt)
        v = F.ndtr(x)
        t.check(float(v[0]) == 1 and float(v[1]) == 0 and math.isnan(float(v[2])), f"ndtr at infinities/NaN: {v.tolist()}")
        v = F.log_ndtr(x)
        t.check(float(v[0]) == 0 and float(v[1]) == -inf and math.isnan(float(v[2])), f"log_ndtr at infinities/NaN: {v.tolist()}")
    for dt in (torch.int32, torch.int64, torch.float16, torch.uint8):
        t.must_raise(f"log_ndtr of {dt}", TypeError, F.log_ndtr, torch.tensor([1, 2]).to(dt))
    for dt in (torch.int32, torch.int64):
        v = F.ndtr(torch.arange(-5, 6).to(dt)).double().numpy()
        t.check(np.allclose(v, st.norm.cdf(np.arange(-5, 6)), rtol=1e-5, atol=1e-7), f"ndtr of {dt}")
    # shapes and monotonicity
    for shape in ((), (0,), (3,), (2, 3), (1, 2, 2)):
        x = torch.linspace(-3, 3, int(np.prod(shape)) if shape else 1).reshape(shape)
        c = x.clone()
        for f in (F.ndtr, F.log_ndtr, F.log_expm1):
            t.check(f(x).shape == x.shape and torch.equal(x, c), f"{f.__name__} shape {shape}")
    for dt in (np.float32, np.float64):
        x = torch.from_numpy(lattice(dt, "quick"))
        for f in (F.ndtr, F.log_ndtr):
            v = f(x).double().numpy()
            d = np.diff(v)
            eps = 3e-7 if (f is F.ndtr or dt == np.float32) else 1e-9
            bad = d < -eps * np.maximum(np.abs(v[1:]), 1e-300) - (1.3e-7 if dt == np.float32 or f is F.ndtr else 3e-16)
            bad &= np.isfinite(v[1:])
            t.check(not bad.any(), f"{f.__name__} decreases near {x.numpy()[1:][bad][:3].tolist()} ({dt.__name__})")
            t.state(f.__name__, str(dt))


def run_expm1(t, case):
    import neuralcompression.functional as F
    for dt in (np.float32, np.float64):
        xs = lattice(dt, case["tier"])
        xs = xs[xs > 0]
        y = torch.from_numpy(xs.copy()).requires_grad_()
        v = F.log_expm1(y)
        t.check(v.dtype == y.dtype, "log_expm1 changes the dtype")
        v.sum().backward()
        g, v = y.grad.double().numpy(), v.detach().double().numpy()
        t.step()
        for xi, vi, gi in zip(xs, v, g):
            r = float(mp.log(mp.expm1(mp.mpf(float(xi)))) if xi < 200 else float(xi))
            t.check(math.isfinite(vi) and abs(vi - r) <= 3.2e-7 + abs(r) * (1e-6 if dt == np.float32 else 1e-13),
                    f"log_expm1({xi!r}) = {vi!r}, exact {r!r}")
            gr = float(1 / -mp.expm1(-mp.mpf(float(xi))))
            if float(xi) > 1e-30 and not (14.999 < xi < 15.001):
                t.check(math.isfinite(gi) and abs(gi - gr) <= abs(gr) * 1e-5, f"gradient of log_expm1 at {xi!r}: {gi!r} vs {gr!r}")
            t.state("expm1", str(dt), float(xi))
        t.trace(len(xs))
        z = torch.tensor([0.0], dtype=torch.float32 if dt == np.float32 else torch.float64)
        t.check(float(F.log_expm1(z)) == -math.inf, "log_expm1(0)")


def run_family(t, case):
    import neuralcompression.functional as F
    fam = case["f"]
    mk, ref = FAMS[fam]
    for dt, eps in ((torch.float64, 1e-12), (torch.float32, 4e-7)):
        for a, b in PARAMS:
            d = mk(torch.tensor(a, dtype=dt), torch.tensor(b, dtype=dt))
            s = ref(a, b)
            lo, hi = SUPPORT.get(fam, lambda *_: (-np.inf, np.inf))(a, b)
            pts = np.unique(np.concatenate([s.ppf(np.linspace(0.0005, 0.9995, 121)), np.linspace(-12, 12, 97), [a, a + b, a - b, a + b / 2]]))
            pts = pts[(pts >= lo) & (pts <= hi)]
            if fam == "gumbel":  # torch's own cdf rejects the far tails
                pts = pts[(s.cdf(pts) > 1e-8) & (s.sf(pts) > 2e-6)]
            # the float32 neighbour must stay inside the support
            x = torch.from_numpy(pts).to(dt)
            if fam == "uniform":
                x = x.clamp(d.low, d.high)
            px = x.double().numpy()
            c, sf = s.cdf(px), s.sf(px)
            tol = eps * 20
            for name, f, r in (("log_cdf", F.log_cdf, c), ("log_survival_function", F.log_survival_function, sf)):
                ok, v = t.attempt(f"{name} {fam}({a},{b})", f, x, d)
                if not ok:
                    return
                v = v.double().numpy()
                e = np.exp(v)
                rel = eps * 1e3 if fam != "normal" else 1e-4
                bad = ~(np.abs(e - r) <= tol + rel * r * 1e-2) | np.isnan(v) | (v > tol)
                t.check(not bad.any(), f"{name} of {fam}({a},{b}) ({dt}): at {px[bad][:2]} got {v[bad][:2]}, exact {np.log(r[bad][:2] + 1e-300)}")
            ok, v = t.attempt(f"survival_function {fam}({a},{b})", F.survival_function, x, d)
            if ok:
                v = v.double().numpy()
                bad = ~(np.abs(v - sf) <= max(tol, 1e-5 * (fam == "normal"))) | (v < -tol) | (v > 1 + tol)
                t.check(not bad.any(), f"survival_function of {fam}({a},{b}) ({dt}): at {px[bad][:2]} got {v[bad][:2]}, exact {sf[bad][:2]}")
            t.state(fam, a, b, str(dt))
            t.trace(len(px))


def run_tails(t, case):
    import neuralcompression.functional as F
    fam = case["f"]
    if fam in ("gamma",):
        return  # no quantile function; its cdf has no gradient at the start of the search
    mk, ref = FAMS[fam]
    for tm in (1.0, 0.5, 2 ** -4, 2 ** -8, 1e-3, 1e-4):
        for shape in ((), (1,), (5,), (5, 1), (2, 5), (1, 5, 1)):
            n = int(np.prod(shape)) if shape else 1
            a = torch.tensor([PARAMS[i % 5][0] for i in range(n)]).reshape(shape)
            b = torch.tensor([PARAMS[(i + i // 5) % 5][1] for i in range(n)]).reshape(shape)
            d = mk(a.clone().requires_grad_(), b.clone().requires_grad_())
            s = ref(a.double().numpy(), b.double().numpy())
            ok1, lo = t.attempt(f"lower_tail {fam}", F.lower_tail, d, tm)
            ok2, hi = t.attempt(f"upper_tail {fam}", F.upper_tail, d, tm)
            if not (ok1 and ok2):
                return
            for nm, q in (("lower", lo), ("upper", hi)):
                t.check(not q.requires_grad, f"{nm}_tail carries gradients")
                t.check(torch.broadcast_shapes(q.shape, shape) in (torch.Size(shape), torch.Size(shape or (1,))), f"{nm}_tail of batch shape {shape} has shape {tuple(q.shape)}")
            want = tm / 2
            c = s.cdf(lo.double().numpy().reshape(shape or (1,)))
            u = s.sf(hi.double().numpy().reshape(shape or (1,)))
            tol = 2e-3 * want + 4e-7
            t.check(bool(np.all(np.abs(c - want) <= tol)), f"lower_tail {fam} {shape} tail mass {tm}: mass below is {np.ravel(c)[:3]} instead of {want}")
            t.check(bool(np.all(np.abs(u - want) <= tol)), f"upper_tail {fam} {shape} tail mass {tm}: mass above is {np.ravel(u)[:3]} instead of {want}")
            t.state(fam, tm, shape)
            t.trace()


class CdfOnly(D.Distribution):
    """logistic distribution that implements nothing but the cdf"""
    arg_constraints = {}

    def __init__(self, loc, scale):
        self.loc, self.scale = loc, scale
        super().__init__(loc.shape, validate_args=False)

    def cdf(self, x):
        return torch.sigmoid((x - self.loc) / self.scale)


def run_estimate(t, case):
    import neuralcompression.functional as F
    L = [([0.0, 0.0], [1.0, 0.1]), ([3.0, -7.0], [0.5, 2.0]), ([0.3, 1.2], [5.0, 0.2]), ([[-1.5], [2.0]], [[0.7], [0.3]])][case["part"]]
    loc, sc = torch.tensor(L[0]), torch.tensor(L[1])
    for tm in (1.0, 0.5, 2 ** -8, 1e-3, 1e-4):
        d = CdfOnly(loc, sc)
        q = math.log((tm / 2) / (1 - tm / 2))
        for nm, f, r in (("lower", F.lower_tail, loc + sc * q), ("upper", F.upper_tail, loc - sc * q)):
            ok, v = t.attempt(nm, f, d, tm)
            if not ok:
                return
            t.check(v.shape == loc.shape and not v.requires_grad and float((v - r).abs().max()) < 0.02,
                    f"{nm}_tail of cdf-only logistic {L} tail mass {tm}: {v.tolist()} instead of {r.tolist()}")
            t.state(str(L), tm, nm)
            t.trace()


def run_mixture(t):
    import neuralcompression.functional as F
    w = torch.tensor([[.3, .7], [.5, .5]])
    for comp, ref in ((lambda a, b: D.Normal(a, b), st.norm), (lambda a, b: D.Laplace(a, b), st.laplace)):
        a, b = torch.tensor([[0., 4.], [-1., 1.]]), torch.tensor([[1., .5], [1., 1.]])
        m = D.MixtureSameFamily(D.Categorical(w), comp(a, b))
        cdf = lambda x: (w.double().numpy() * ref(a.numpy(), b.numpy()).cdf(x[:, None])).sum(1)
        sf = lambda x: (w.double().numpy() * ref(a.numpy(), b.numpy()).sf(x[:, None])).sum(1)
        for tm in (0.5, 2 ** -8, 1e-4):
            lo, hi = F.lower_tail(m, tm).double().numpy(), F.upper_tail(m, tm).double().numpy()
            t.step(2)
            t.check(lo.shape == (2,) and np.all(np.abs(cdf(lo) / (tm / 2) - 1) < 0.05), f"lower_tail of a mixture: mass {cdf(lo)} instead of {tm / 2}")
            t.check(hi.shape == (2,) and np.all(np.abs(sf(hi) / (tm / 2) - 1) < 0.05), f"upper_tail of a mixture: mass {sf(hi)} instead of {tm / 2}")
            t.state("mix", tm)


def run_estimate_raw(t):
    import neuralcompression.functional as F
    # monotone functions, rising and falling, solution at/around the start point
    fns = {"sig": (torch.sigmoid, lambda y: math.log(y / (1 - y))), "nsig": (lambda x: torch.sigmoid(-x), lambda y: -math.log(y / (1 - y))),
           "lin": (lambda x: 2 * x + 1, lambda y: (y - 1) / 2), "tanh": (lambda x: torch.tanh(x / 2), lambda y: 2 * math.atanh(y))}
    for name, (f, inv) in fns.items():
        for tgt in (0.5, 0.25, 0.1, 0.9, 0.999) + ((1.0, -3.0) if name == "lin" else ()) + ((0.0, -0.9) if name == "tanh" else ()):
            for shape in ((), (1,), (3,), (2, 2)):
                for dt in (torch.float32, torch.float64):
                    ok, v = t.attempt("estimate_tails", F.estimate_tails, f, tgt, shape, dtype=dt)
                    if not ok:
                        return
                    t.check(tuple(v.shape) == shape and v.dtype == dt and float((v.detach() - inv(tgt)).abs().max()) < 0.02,
                            f"estimate_tails({name}, {tgt}) = {v.flatten()[:1].tolist()} instead of {inv(tgt)}")
                t.state(name, tgt, shape)
                t.trace()


def run_nocdf(t):
    import neuralcompression.functional as F

    class Nothing(D.Distribution):
        arg_constraints = {}
    for f in (F.lower_tail, F.upper_tail):
        t.must_raise("tail of a distribution without cdf", NotImplementedError, f, Nothing(validate_args=False), 0.1)
        t.must_raise("tail of StudentT", NotImplementedError, f, D.StudentT(3.0), 0.1)
    t.state("nocdf")


def run_offset(t):
    import neuralcompression.functional as F

    class NoMean(D.Distribution):
        arg_constraints = {}

    class AttrMean(D.Distribution):
        arg_constraints = {}

        @property
        def mean(self):
            raise AttributeError
    for m in [i / 16 for i in range(-64, 65)] + [0.49999, 0.50001, 1e6 + 0.25, -1e6 - 0.25, 2.5, -3.5]:
        for mk in (lambda v: D.Normal(v, 1.0), lambda v: D.Laplace(v, 2.0), lambda v: D.Normal(v, 0.0 + 3), lambda v: D.Uniform(v - 1, v + 1)):
            for shape in ((), (3,), (2, 1)):
                v = torch.full(shape, m, dtype=torch.float64).requires_grad_()
                ok, o = t.attempt("quantization_offset", F.quantization_offset, mk(v))
                if not ok:
                    return
                r = m - round(m)
                t.check(not o.requires_grad and torch.broadcast_shapes(o.shape, shape) == torch.Size(shape), "offset shape/gradient")
                t.check(bool((o.abs() <= 0.5).all()) and bool(((m - o) - torch.round(m - o)).abs().max() < 1e-9), f"offset {o} of mean {m} is not the distance to an integer")
                t.check(abs(abs(float(o.flatten()[0])) - abs(r)) < 1e-9, f"offset {o} of mean {m}")
        t.state("offset", m)
        t.trace()
    und = [("Cauchy", D.Cauchy(0.3, 1.0)), ("HalfCauchy", D.HalfCauchy(1.0)), ("no mean", NoMean(validate_args=False)), ("attribute", AttrMean(validate_args=False)),
           ("Pareto", D.Pareto(torch.tensor([1.0, 2.0]), torch.tensor([0.5, 0.5]))), ("transformed", D.TransformedDistribution(D.Normal(0.3, 1.0), [D.AffineTransform(1.0, 2.0)]))]
    for nm, d in und:
        ok, o = t.attempt(f"quantization_offset {nm}", F.quantization_offset, d)
        if ok:
            t.check(bool((o == 0).all()), f"offset of {nm} with undefined mean is {o}")
    d = D.Pareto(torch.tensor([1.0, 1.25]), torch.tensor([0.5, 3.0]))
    o = F.quantization_offset(d)
    t.check(float(o[0]) == 0 and abs(float(o[1]) - (1.875 - 2)) < 1e-6, f"offset of partly undefined means {o}")


def run_case(t, case):
    torch.set_num_threads(1)
    k = case["kind"]
    {"ndtr": lambda: run_ndtr(t, case), "special": lambda: run_special(t), "expm1": lambda: run_expm1(t, case),
     "family": lambda: run_family(t, case), "tails": lambda: run_tails(t, case), "estimate": lambda: run_estimate(t, case),
     "mixture": lambda: run_mixture(t), "estimate_raw": lambda: run_estimate_raw(t), "nocdf": lambda: run_nocdf(t), "offset": lambda: run_offset(t)}[k]()


if __name__ == "__main__":
    core.main(sys.modules[__name__])
