"""C19: soft rounding, its inverse and the conditional mean on a complete lattice of values (with floating-point neighbours of every breakpoint) x sharpness."""
import math
import sys
import numpy as np
import torch
from . import core

PID = "C19"
ASSUMPTIONS = ["|x| <= 2^20 (beyond 2^23 a float32 has no half-integers)", "comparisons allow single-precision rounding: the library evaluates the sharpness in float32"]
ALPHAS = [-1.0, 0.0, 1e-6, 9.99e-4, 1e-3, 1.001e-3, 2e-3, 1e-2, 0.1, 0.3, 0.5, 1.0, 1.7, 2.0, 3.0, 4, 5.5, 7.0, 10.0, 13.0, 17.5, 20.0, 30.0, 50.0, 90.0, 200.0, 1e3, 1e5]
EPSS = [None, 1e-4, 1e-2, 0.5, 2.0]


def bounds(tier):
    return "%d sharpness values x %d thresholds x cells %s x %d interior points (and both floating-point neighbours of every integer and half-integer) x float32/float64 x contiguous, transposed, 0-d and empty layouts" % (len(ALPHAS), len(EPSS), CELLS(tier), NPTS(tier))


def CELLS(tier):
    return [-(2 ** 20), -1025, -3, -2, -1, 0, 1, 2, 7, 1024, 2 ** 20 - 1] if tier == "quick" else [-(2 ** 20)] + list(range(-40, 40)) + [-65537, -1025, 255, 256, 1024, 2 ** 20 - 1]


def NPTS(tier):
    return 128 if tier == "quick" else 2048


def cases(tier):
    for a in ALPHAS:
        for dt in ("float32", "float64"):
            yield {"alpha": a, "dt": dt, "n": NPTS(tier), "cells": CELLS(tier)}
    yield {"alpha": "layout", "dt": "float32", "n": 0, "cells": []}


def lattice(case):
    ndt = np.dtype(case["dt"]).type
    out = []
    for c in case["cells"]:
        pts = [c + k / case["n"] for k in range(case["n"] + 1)]
        for b in (c, c + 0.5, c + 1):
            pts += [np.nextafter(ndt(b), ndt(np.inf)), np.nextafter(ndt(b), ndt(-np.inf))]
        pts = [p for p in pts if c <= p <= c + 1]
        out += sorted({float(ndt(p)) for p in pts})
    return np.array(sorted(set(out)), dtype=np.float64)


def ref_soft(x, a):
    m = np.floor(x) + 0.5
    return m + np.tanh(a * (x - m)) / (2 * math.tanh(a / 2))


def run_case(t, case):
    from neuralcompression.functional import soft_round, soft_round_inverse, soft_round_conditional_mean
    if case["alpha"] == "layout":
        return layouts(t, soft_round, soft_round_inverse, soft_round_conditional_mean)
    a = case["alpha"]
    dt = getattr(torch, case["dt"])
    xs = lattice(case)
    x = torch.tensor(xs, dtype=dt)
    ulp = np.finfo(case["dt"]).eps * np.maximum(1.0, np.abs(xs))
    for eps in EPSS:
        kw = {} if eps is None else {"eps": eps}
        e = 1e-3 if eps is None else eps
        name = f"alpha={a} eps={e} {case['dt']}"
        x0 = x.clone()
        xg = x.clone().requires_grad_()
        ok, y = t.attempt(f"soft_round {name}", soft_round, xg, a, **kw)
        ok2, z = t.attempt(f"soft_round_inverse {name}", soft_round_inverse, x, a, **kw)
        if not (ok and ok2):
            return
        yv, zv = y.detach().numpy().astype(np.float64), z.numpy().astype(np.float64)
        t.check(torch.equal(x, x0), f"{name}: the input was modified")
        t.check(y.shape == x.shape and y.dtype == dt and z.shape == x.shape and z.dtype == dt, f"{name}: shape/dtype {y.shape} {y.dtype} {z.dtype}")
        fl = np.floor(xs)
        frac = xs - fl
        # single-precision noise of the evaluation, in units of the value
        tol = 4 * ulp + 1e-6
        for i in range(len(xs)):
            t.state(a, e, case["dt"], float(xs[i]))
        t.step(2 * len(xs))
        if a < e:
            t.check(np.array_equal(yv, xs), f"{name}: below the threshold soft_round must be the identity")
            t.check(np.array_equal(zv, xs), f"{name}: below the threshold the inverse must be the identity")
            y.sum().backward()
            t.check(bool((xg.grad == 1).all()), f"{name}: identity has gradient {xg.grad.unique().tolist()[:4]}")
            continue

        def bad(mask, what, vals):
            i = int(np.argmax(mask))
            t.check(not mask.any(), f"{name}: {what} at x={xs[i]!r}: {vals[i]!r}")

        # definition
        want = ref_soft(xs, a)
        bad(np.abs(yv - want) > tol, f"soft_round differs from its definition", np.stack([yv, want], 1).tolist())
        # integers and half-integers fixed
        bad(((frac == 0) | (frac == 0.5)) & (np.abs(yv - xs) > tol), "integer/half-integer not fixed", yv)
        # within the unit cell
        bad((yv < fl - tol) | (yv > fl + 1 + tol), "leaves its unit cell", yv)
        # never further from the nearest integer than x was (sharpening), up to noise
        r = np.round(xs)
        bad((frac != 0.5) & (np.abs(yv - r) > np.abs(xs - r) + tol), "moves away from the nearest integer", yv)
        # monotone
        d = np.diff(yv)
        j = int(np.argmin(d))
        t.check(d.min() >= -(tol[1:][j]), f"{name}: decreasing between {xs[j]!r} and {xs[j+1]!r}: {yv[j]!r} -> {yv[j+1]!r}")
        d = np.diff(zv)
        j = int(np.argmin(d))
        t.check(d.min() >= -(tol[1:][j]) - 4 * ulp[j], f"{name}: inverse decreasing between {xs[j]!r} and {xs[j+1]!r}: {zv[j]!r} -> {zv[j+1]!r}")
        # gradient of the definition, away from the cell boundaries
        y.sum().backward()
        g = xg.grad.numpy().astype(np.float64)
        dm = xs - (fl + 0.5)
        gw = a / np.cosh(np.clip(a * dm, -300, 300)) ** 2 / (2 * math.tanh(a / 2))
        gt = 1e-4 * gw + 1e-5 * max(a, 1) + 4 * a * a * ulp
        bad(~np.isfinite(g) | (np.abs(g - gw) > gt), "gradient differs from the derivative", np.stack([g, gw], 1).tolist())
        # limits
        if a <= 2e-3:
            bad(np.abs(yv - xs) > tol, "small sharpness is not the identity", yv)
        if a >= 1e3:
            far = np.abs(dm) > 12.0 / a + 4 * ulp
            bad(far & (np.abs(yv - r) > tol), "large sharpness is not rounding", yv)
        # inverse: the exact preimage interval of y +- tol must contain the result
        th = 2 * math.tanh(a / 2)

        def pre(v):
            c = np.floor(v) + 0.5
            with np.errstate(divide="ignore"):
                return c + np.clip(np.arctanh(np.clip((v - c) * th, -1, 1)) / a, -0.5, 0.5)
        bad(~np.isfinite(zv) | (zv < pre(xs - tol) - tol) | (zv > pre(xs + tol) + tol), "inverse is not the preimage", zv)
        bad(((frac == 0) | (frac == 0.5)) & (np.abs(zv - xs) > loose_inv(xs, dm, tol, th, a)), "inverse does not fix integers/half-integers", zv)
        # round trips on the real functions
        back = soft_round(z, a, **kw).numpy().astype(np.float64)
        slope = a / th if a > 1 else 1.0
        bad(np.abs(back - xs) > tol + 4 * slope * ulp * (1 if case["dt"] == "float64" else 2), "soft_round(inverse(y)) != y", back)
        fwd = soft_round_inverse(y.detach(), a, **kw).numpy().astype(np.float64)
        loose = loose_inv(want, want - (fl + 0.5), tol, th, a)
        bad(np.abs(fwd - xs) > loose, "inverse(soft_round(x)) != x", fwd)
        # integer shifts
        for s in (1, -3, 16):
            xsft = (torch.tensor(xs + s, dtype=dt))
            exact = xsft.numpy().astype(np.float64) == xs + s
            ys = soft_round(xsft, a, **kw).numpy().astype(np.float64)
            ok_ = exact & (np.abs(xs) < 2 ** 19)
            bad(ok_ & (np.abs(ys - s - yv) > 2 * tol + 8 * ulp), f"does not commute with a shift by {s}", ys - s)
            zs = soft_round_inverse(xsft, a, **kw).numpy().astype(np.float64)
            bad(ok_ & (np.abs(zs - s - zv) > loose_inv(xs, dm, tol, th, a)), f"inverse does not commute with a shift by {s}", zs - s)
        # odd symmetry about half-integers => symmetric under negation
        yn = soft_round(-x, a, **kw).numpy().astype(np.float64)
        bad(np.abs(yn + yv) > 2 * tol, "is not odd", yn)
        t.outcome(np.round(yv[:64], 5).tolist())
        t.trace()
    # conditional mean (default threshold)
    ok, c = t.attempt(f"soft_round_conditional_mean {a}", soft_round_conditional_mean, x, a)
    if ok:
        cv = c.numpy().astype(np.float64)
        t.check(c.shape == x.shape and c.dtype == dt, f"conditional mean shape/dtype {c.shape} {c.dtype}")
        tol = 4 * ulp + 1e-6
        i = int(np.argmax(np.abs(cv - xs)))
        t.check(bool(np.isfinite(cv).all()) and np.abs(cv - xs).max() <= 0.5 + tol.max(), f"alpha={a}: conditional mean {cv[i]!r} further than 1/2 from {xs[i]!r}")
        w = xs - 0.5
        if a < 1e-3:
            good = np.abs(cv - xs) <= tol
        else:
            fl = np.floor(w)
            dm = w - (fl + 0.5)
            th = 2 * math.tanh(a / 2)
            # at a cell boundary of the shifted line either neighbouring cell's end is fine
            with np.errstate(divide="ignore"):
                lo = np.maximum(np.arctanh(np.clip((dm - tol) * th, -1, 1)) / a, -0.5) - tol
                hi = np.minimum(np.arctanh(np.clip((dm + tol) * th, -1, 1)) / a, 0.5) + tol
            v = cv - 0.5 - (fl + 0.5)
            near = (np.abs(dm) > 0.5 - tol) & (np.abs(cv - xs) <= tol * (1 + 2 / max(1e-12, 1 - math.tanh(a / 2) ** 2)))
            good = ((v >= lo) & (v <= hi)) | near | ((np.abs(dm) > 0.5 - tol) & (np.abs(v) <= 0.5 + tol) & (a > 10))
        i = int(np.argmin(good))
        t.check(bool(good.all()), f"alpha={a} {case['dt']}: conditional mean at {xs[i]!r} is {cv[i]!r}")
        d = np.diff(cv)
        t.check(d.min() >= -tol.max() * 2, f"alpha={a}: conditional mean decreases at {xs[int(np.argmin(d))]!r}")
        if a >= 1e3:
            far = np.abs((xs - 0.5) - np.floor(xs - 0.5) - 0.5) < 0.49
            r = np.floor(xs + 0.5)
            t.check(bool((np.abs(cv - r)[far] <= 1e-2 + tol[far]).all()), f"alpha={a}: conditional mean is not the rounded value")
    t.sample({"alpha": a, "dt": case["dt"], "points": len(xs)})


def loose_inv(xs, dm, tol, th, a):
    with np.errstate(divide="ignore"):
        lo = np.maximum(np.arctanh(np.clip((dm - 2 * tol) * th, -1, 1)) / a, -0.5)
        hi = np.minimum(np.arctanh(np.clip((dm + 2 * tol) * th, -1, 1)) / a, 0.5)
    return hi - lo + 4 * tol


def layouts(t, f, inv, cm):
    """Elementwise on any layout: equal to the flat evaluation, input untouched."""
    base = torch.arange(-24, 24, dtype=torch.float32) / 7
    for a in (0.0, 0.5, 3, 12.0):
        for fn in (f, inv, cm):
            flat = fn(base, a)
            for shape in ((48,), (6, 8), (2, 3, 8), (2, 2, 3, 4), (1, 48)):
                for perm in (False, True):
                    v, w = base.reshape(shape), flat.reshape(shape)
                    if perm:
                        v, w = v.transpose(0, -1), w.transpose(0, -1)
                    ok, r = t.attempt(f"{fn.__name__} {shape}", fn, v, a)
                    t.state(a, fn.__name__, shape, perm)
                    t.check(ok and r.shape == v.shape and torch.allclose(r, w, atol=1e-6), f"{fn.__name__} alpha={a}: depends on the layout {shape} {perm}")
            for i in range(48):
                ok, r = t.attempt(f"{fn.__name__} 0-d", fn, base[i], a)
                t.check(ok and r.shape == () and abs(float(r) - float(flat[i])) < 1e-5, f"{fn.__name__} alpha={a}: 0-d {float(base[i])} -> {r}, in a batch {float(flat[i])}")
            ok, r = t.attempt(f"{fn.__name__} empty", fn, torch.zeros(0, 3), a)
            t.check(ok and r.shape == (0, 3), "empty")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
