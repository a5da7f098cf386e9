"""C18: lower_bound (value x bound x mode x incoming gradient) and GDN layers (all parameter-write/forward histories)."""
import copy
import io
import itertools
import math
import sys
import numpy as np
import torch
from . import core

PID = "C18"
ASSUMPTIONS = ["bounds broadcast to the shape of the input (documented restriction)", "in the disconnected mode the gradient at an exact tie is not specified"]


def bounds(tier):
    return "lower_bound: 15 bounds x 40 values (with floating-point neighbours of the bound) x 7 incoming gradients x 3 modes x 3 dtypes x float/tensor/broadcast bounds; GDN: all histories of length <= %d over 11 operations (parameter writes, optimiser steps, forward passes, save/load, copy, dtype) x both layers x 1..3 channels, all sizes <= 3x3" % (4 if tier == "quick" else 5)


def cases(tier):
    for mode in ("disconnected", "identity", "identity_if_towards"):
        for dt in ("float32", "float64", "float16"):
            yield {"kind": "lb", "mode": mode, "dt": dt}
    yield {"kind": "lb_misc"}
    for inv in (False, True):
        for ch in (1, 2, 3):
            yield {"kind": "gdn_hist", "inv": inv, "ch": ch, "depth": 4 if tier == "quick" else 5}
        yield {"kind": "gdn_value", "inv": inv}


def run_lb(t, case):
    from neuralcompression.functional import lower_bound
    dt = getattr(torch, case["dt"])
    ndt = np.dtype(case["dt"]).type
    gs = [-3.0, -1.0, -0.0, 0.0, 0.5, 1.0, 100.0]
    for b in (-5.0, -1.0, -0.5, -1e-6, 0.0, 1e-6, 0.11, 0.5, 1.0, 2.0, 3.25, 100.0, 1e4, -1e4, 1e-3):
        bb = ndt(b)
        vals = [bb, np.nextafter(bb, ndt(np.inf)), np.nextafter(bb, ndt(-np.inf)), ndt(0), ndt(-0.0), ndt(1), ndt(-1), ndt(b + 1), ndt(b - 1), ndt(b * 2), ndt(-b), ndt(1e4), ndt(-1e4), ndt(np.inf), ndt(-np.inf)]
        x0 = torch.tensor([float(v) for v in vals], dtype=torch.float64).to(dt)
        for gin in gs:
            for btype in ("float", "0d", "1d", "full", "double"):
                if btype == "float":
                    bd = b
                elif btype == "0d":
                    bd = torch.tensor(b, dtype=dt)
                elif btype == "1d":
                    bd = torch.tensor([b], dtype=dt)
                elif btype == "full":
                    bd = torch.full_like(x0, b)
                else:
                    bd = torch.tensor(b, dtype=torch.float64)
                bt = torch.tensor(b, dtype=torch.float64).to(dt)
                x = x0.clone().requires_grad_()
                ok, y = t.attempt(f"lower_bound {case} bound {b} ({btype})", lower_bound, x, bd, case["mode"])
                if not ok:
                    return
                want = torch.where(x0 > bt, x0, bt.expand_as(x0))
                t.check(y.shape == x.shape and y.dtype == dt and torch.equal(y.detach(), want), f"lower_bound({x0.tolist()}, {b}) = {y.tolist()}")
                t.check(bool((y.detach() >= bt).all()), f"value below the bound {b}: {y.tolist()}")
                g = torch.full_like(x0, gin)
                y.backward(g)
                above, tie = x0 > bt, x0 == bt
                if case["mode"] == "identity":
                    wg = g
                elif case["mode"] == "disconnected":
                    wg = torch.where(above, g, torch.zeros_like(g))
                else:
                    wg = torch.where(above | tie | (g < 0), g, torch.zeros_like(g))
                sel = ~tie if case["mode"] == "disconnected" else torch.ones_like(tie)
                t.check(bool((x.grad[sel] == wg[sel]).all()) and x.grad.dtype == dt, f"{case['mode']} gradient at {x0[sel].tolist()} bound {b} incoming {gin}: {x.grad[sel].tolist()} instead of {wg[sel].tolist()}")
                t.state(case["mode"], case["dt"], b, gin, btype)
                t.trace(len(vals))
    t.sample({"bounds": 15, "mode": case["mode"]})


def run_lb_misc(t):
    from neuralcompression.functional import lower_bound
    for bad in ("", "none", "Identity", "identity_if_away", None, 0):
        t.must_raise(f"gradient mode {bad!r}", (ValueError, KeyError, TypeError), lower_bound, torch.zeros(2), torch.tensor(0.0), bad)
    for shape in ((), (0,), (1,), (3,), (2, 3), (2, 1, 4)):
        n = int(np.prod(shape)) if shape else 1
        x = (torch.arange(n).float() - 2).reshape(shape).requires_grad_()
        keep = x.detach().clone()
        y = lower_bound(x, torch.tensor(0.5))
        t.check(y.shape == x.shape and torch.equal(x.detach(), keep), f"shape {shape}")
        y.sum().backward()
        t.check(torch.equal(x.grad, (keep >= 0.5).float()), f"default mode gradient for shape {shape}: {x.grad}")
        # the bound receives no gradient
        b = torch.tensor(0.5, requires_grad=True)
        z = lower_bound(x.detach().requires_grad_(), b)
        z.sum().backward()
        t.check(b.grad is None or float(b.grad) == 0, "bound received a gradient")
        t.state(shape)
    # optimisation with the towards mode escapes below the bound and converges
    for start in (-3.0, 0.0, 2.0):
        for target in (-1.0, 0.5, 3.0):
            x = torch.tensor([start], requires_grad=True)
            for _ in range(300):
                x.grad = None
                ((lower_bound(x, 0.5) - target) ** 2).sum().backward()
                with torch.no_grad():
                    x -= 0.05 * x.grad
            v = float(lower_bound(x, 0.5))
            t.check(abs(v - max(target, 0.5)) < 0.11, f"descent from {start} to {target} with bound 0.5 ends at {v}")
            t.trace()


def layer(inv, ch, **kw):
    from neuralcompression.layers import SimplifiedGDN, SimplifiedInverseGDN
    return (SimplifiedInverseGDN if inv else SimplifiedGDN)(ch, **kw)


def ref(inv, x, gamma, beta):
    x = x.double().numpy()
    g, b = gamma.double().numpy()[:, :, 0, 0], beta.double().numpy()
    n = np.einsum("oc,bchw->bohw", g, np.abs(x)) + b[None, :, None, None]
    return x * n if inv else x / n


def img(ch, h, w, b=2):
    i = torch.arange(b * ch * h * w).view(b, ch, h, w).double()
    v = ((i * 7 + i // 3) % 11 - 5) / 2
    v[0, 0, 0, 0] = 0
    return v


def run_gdn_value(t, case):
    inv = case["inv"]
    for ch, h, w, b, gi, bm in itertools.product((1, 2, 3, 5), (1, 2, 3), (1, 2, 3), (1, 2), (0.1, 0.0, 2.0), (1e-6, 0.5)):
        m = layer(inv, ch, gamma_init=gi, beta_min=bm).double()
        t.check(torch.equal(m.gamma[:, :, 0, 0], torch.eye(ch).double() * torch.tensor(gi).double()) or bool((m.gamma[:, :, 0, 0] - torch.eye(ch) * gi).abs().max() < 1e-6), "initial gamma")
        t.check(torch.equal(m.beta, torch.ones(ch).double()), "initial beta")
        for pat in range(3):
            with torch.no_grad():
                if pat:
                    k = torch.arange(ch * ch).double().view(ch, ch, 1, 1)
                    m.gamma.copy_(((k * (3 + pat)) % 7 - (2 if pat == 2 else 0)) / 4)
                    m.beta.copy_((torch.arange(ch).double() * 1.5 - (1 if pat == 2 else 0)) + 0.25)
            x = img(ch, h, w, b).requires_grad_()
            g, be = m.gamma.detach().clamp(min=0), m.beta.detach().clamp(min=bm)
            ok, y = t.attempt("gdn", m, x)
            if not ok:
                return
            r = ref(inv, x.detach(), g, be)
            t.check(y.shape == x.shape and np.allclose(y.detach().numpy(), r, rtol=1e-9, atol=1e-12), f"{'inverse ' if inv else ''}GDN value differs from its formula (ch {ch}, {h}x{w}, pattern {pat})")
            t.check(torch.equal(m.gamma, g) and torch.allclose(m.beta, be, rtol=0, atol=1e-12), f"parameters after forward: gamma {m.gamma.flatten().tolist()} beta {m.beta.tolist()}")
            y.sum().backward()
            for nm, q in (("input", x.grad), ("gamma", m.gamma.grad), ("beta", m.beta.grad)):
                t.check(q is not None and bool(torch.isfinite(q).all()), f"{nm} gradient not finite")
            # gradient of the defining formula
            xx, gg, bb = x.detach().clone().requires_grad_(), g.clone().requires_grad_(), be.clone().requires_grad_()
            n = torch.einsum("oc,bchw->bohw", gg[:, :, 0, 0], xx.abs()) + bb[None, :, None, None]
            (xx * n if inv else xx / n).sum().backward()
            t.check(torch.allclose(x.grad, xx.grad, rtol=1e-7, atol=1e-9) and torch.allclose(m.gamma.grad, gg.grad, rtol=1e-7, atol=1e-9) and torch.allclose(m.beta.grad, bb.grad, rtol=1e-7, atol=1e-9), "gradients differ from those of the formula")
            m.zero_grad()
            t.state(inv, ch, h, w, b, gi, bm, pat)
            t.trace()
    x = img(3, 4, 4, 3).float()
    m = layer(inv, 3)
    y = m(x)
    t.check(all(torch.allclose(m(x[i:i + 1])[0], y[i]) for i in range(3)), "result depends on the batch")
    t.check(torch.equal(m(torch.zeros(1, 3, 2, 2)), torch.zeros(1, 3, 2, 2)), "zero maps to zero")
    t.check(m.beta_min == 1e-6, "default beta_min")


OPS = ["fwd", "fwd_nograd", "neg_gamma", "neg_beta", "mid", "tiny_beta", "sgd_up", "sgd_down", "train", "eval", "reload"]


def run_gdn_hist(t, case):
    inv, ch = case["inv"], case["ch"]
    x = img(ch, 2, 2).float()

    def fresh():
        m = layer(inv, ch, gamma_init=0.25, beta_min=0.125)
        o = torch.optim.SGD(m.parameters(), lr=1.0)
        return {"m": m, "o": o, "ids": [id(p) for p in m.parameters()]}, {"g": m.gamma.detach().clone(), "b": m.beta.detach().clone()}

    def put(p, v):
        with torch.no_grad():
            p.copy_(v)

    def apply(im, mo, op, check):
        m = im["m"]
        if op in ("fwd", "fwd_nograd", "sgd_up", "sgd_down"):
            mo["g"] = mo["g"].clamp(min=0)
            mo["b"] = mo["b"].clamp(min=0.125)
            with torch.set_grad_enabled(op != "fwd_nograd"):
                y = m(x)
            if check:
                t.check(np.allclose(y.detach().numpy(), ref(inv, x, mo["g"], mo["b"]), rtol=1e-4, atol=1e-6), "value differs from the formula with legal parameters")
            if op.startswith("sgd"):
                im["o"].zero_grad()
                (y.abs().sum() * (1.0 if op == "sgd_down" else -1.0)).backward()
                gs = [p.grad.clone() for p in m.parameters()]
                if check:
                    t.check(all(bool(torch.isfinite(g).all()) for g in gs), "gradient not finite")
                    t.check(all(bool((g != 0).any()) for g in gs), "parameters receive no gradient")
                # normalise the step so that states stay finite and comparable
                for p, g in zip(m.parameters(), gs):
                    p.grad = torch.sign(g) * 0.25
                im["o"].step()
                for k, g in zip(("g", "b"), gs):
                    mo[k] = mo[k] - torch.sign(g) * 0.25
        elif op == "neg_gamma":
            put(m.gamma, torch.full_like(m.gamma, -0.5))
            mo["g"] = torch.full_like(m.gamma, -0.5)
        elif op == "neg_beta":
            put(m.beta, torch.full_like(m.beta, -2.0))
            mo["b"] = torch.full_like(m.beta, -2.0)
        elif op == "mid":
            v = torch.arange(ch * ch).float().view(ch, ch, 1, 1) / 4 - 0.25
            put(m.gamma, v)
            mo["g"] = v
        elif op == "tiny_beta":
            put(m.beta, torch.full_like(m.beta, 0.0625))
            mo["b"] = torch.full_like(m.beta, 0.0625)
        elif op == "train":
            m.train()
        elif op == "eval":
            m.eval()
        elif op == "reload":
            buf = io.BytesIO()
            torch.save(m.state_dict(), buf)
            buf.seek(0)
            m.load_state_dict(torch.load(buf))
            c = copy.deepcopy(m)
            if check:
                t.check(torch.equal(c.gamma, m.gamma) and torch.equal(c.beta, m.beta) and torch.equal(c(x), m(x)), "copy differs")
                # the forward above clamps m, as any forward does
            else:
                m(x)
            mo["g"] = mo["g"].clamp(min=0)
            mo["b"] = mo["b"].clamp(min=0.125)

    def inv_(im, mo, h):
        m = im["m"]
        ps = list(m.parameters())
        t.check([id(p) for p in ps] == im["ids"] and all(p.requires_grad and isinstance(p, torch.nn.Parameter) for p in ps), f"parameter objects replaced after {h}")
        t.check({id(p) for g in im["o"].param_groups for p in g["params"]} == set(im["ids"]), f"optimiser lost the parameters after {h}")
        t.check(torch.allclose(m.gamma, mo["g"], atol=1e-6) and torch.allclose(m.beta, mo["b"], atol=1e-6), f"parameters after {h}: gamma {m.gamma.flatten().tolist()} instead of {mo['g'].flatten().tolist()}, beta {m.beta.tolist()} instead of {mo['b'].tolist()}")

    core.explore(t, fresh, lambda mo: OPS, apply, lambda im, mo: (mo["g"], mo["b"], im["m"].training), inv_, case["depth"])


def run_case(t, case):
    torch.set_num_threads(1)
    k = case["kind"]
    if k == "lb_misc":
        run_lb_misc(t)
    else:
        globals()["run_" + k](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
