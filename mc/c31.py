"""C31: rate targeting over all small schedules, steps and measured rates, on the real training module with a stand-in trainer."""
import itertools
import math
import sys
import torch
from . import core

PID = "C31"
ASSUMPTIONS = ["the training framework (lightning, hydra, omegaconf: not installed) is replaced by a stand-in that supplies the step counter and records logging", "schedule steps are given in ascending order, as in the project's configurations"]
STEPS = [0, 1, 2, 5]
FACT = [1.5, 0.5, 2.0, 0.25]


def bounds(tier):
    return ("all pairs of schedules with 0..%d ascending change steps over {0,1,2,5} for target and weight x training steps 0..7 in every order of queries; batches of 1..3 images x all rate patterns over 4 rates x 5 targets x latent/hyper splits x layouts; all list-length combinations"
            % (2 if tier == "quick" else 3))


def scheds(n):
    out = [()]
    for k in range(1, n + 1):
        out += list(itertools.combinations_with_replacement(STEPS, k))
    return out


def cases(tier):
    q = tier == "quick"
    for a in scheds(2 if q else 3):
        yield {"kind": "sched", "a": list(a), "n": 2 if q else 3}
    for b in (1, 2, 3):
        for tgt in (0.0, 0.25, 0.5, 1.0, 3.0):
            yield {"kind": "rate", "b": b, "target": tgt}
    yield {"kind": "layout"}
    yield {"kind": "reject"}
    yield {"kind": "shipped"}


class Model(torch.nn.Module):
    def forward(self, x):
        return x


def module(cfg, **kw):
    from . import fakelightning
    mod = fakelightning.illm("target_compression_module")
    return mod.TargetRateCompressionModule(model=Model(), target_rate_config=cfg, optimizer_config=fakelightning.DictConfig(), **kw)


def config(**kw):
    from neuralcompression.loss_fn import TargetRateConfig
    base = dict(target_bpp=1.0, target_factors=[1.0], target_steps=[], lam_levels=(0.5, 4.0), lam2_factors=[1.0], lam2_steps=[])
    base.update(kw)
    return TargetRateConfig(**base)


def lik(bits, n, shape=None):
    """n likelihoods carrying the given number of bits per image: the first one carries all, the rest are certain or cancel."""
    rows = []
    for b in bits:
        r = [2.0 ** -(b / n)] * n if b % 2 else [2.0 ** -b] + [1.0] * (n - 1)
        rows.append(r)
    x = torch.tensor(rows, dtype=torch.float32)
    return x if shape is None else x.reshape(shape)


def close(a, b):
    return abs(float(a) - b) <= 2e-5 * max(1.0, abs(b))


def run_sched(t, case):
    a = tuple(case["a"])
    img = torch.zeros(1, 3, 2, 2)
    for b in scheds(case["n"]):
        cfg = config(target_bpp=2.0, target_factors=FACT[:len(a) + 1], target_steps=list(a), lam_levels=(0.5, 8.0), lam2_factors=list(reversed(FACT))[:len(b) + 1], lam2_steps=list(b))
        ok, m = t.attempt(f"module with schedules {a}, {b}", module, cfg)
        if not ok:
            return
        for order in (range(8), reversed(range(8))):
            for step in order:
                m.trainer.global_step = step
                want_t = 2.0 * FACT[sum(s <= step for s in a)]
                want_l = 8.0 * list(reversed(FACT))[sum(s <= step for s in b)]
                for qbits in (4.0, 40.0):
                    noisy, q, one = lik([6.0], 4), lik([qbits], 4), lik([0.0], 1)
                    r = m.rate_loss(img, noisy, q, one, one)
                    what = f"step {step}, target schedule {a}, weight schedule {b}, quantised rate {qbits / 4}"
                    t.check(r.target == want_t, f"{what}: target {r.target}, scheduled {want_t}")
                    t.check(r.lam2 == want_l, f"{what}: weight {r.lam2}, scheduled {want_l}")
                    want = (want_l if qbits / 4 > want_t and not math.isclose(qbits / 4, want_t) else 0.5) * 1.5
                    if not math.isclose(qbits / 4, want_t):
                        t.check(close(r.rate_loss, want), f"{what}: rate loss {float(r.rate_loss)}, expected {want}")
                    t.step()
                t.state(a, b, step)
            t.trace()
        t.check(cfg.target_steps == list(a) and cfg.lam2_steps == list(b) and cfg.target_factors == FACT[:len(a) + 1], f"schedules {a}, {b} were modified by use")


def run_rate(t, case):
    B, tgt = case["b"], case["target"]
    cfg = config(target_bpp=tgt, lam_levels=(0.5, 4.0))
    m = module(cfg)
    img = torch.zeros(B, 3, 4, 2)
    P = 8
    rates = [0.0, 4.0, 8.0, 16.0]   # bits per image
    for lq in itertools.product(rates, repeat=B):
        for hq in itertools.product((0.0, 4.0), repeat=B):
            ln = [10.0 + 3 * i for i in range(B)]
            hn = [1.0 + i for i in range(B)]
            ll = lik(ln, 6, (B, 3, 2, 1)).clone().requires_grad_()
            hl = lik(hn, 4, (B, 4, 1, 1)).clone().requires_grad_()
            ql = lik(lq, 6, (B, 3, 2, 1)).clone().requires_grad_()
            qh = lik(hq, 4, (B, 4, 1, 1)).clone().requires_grad_()
            what = f"quantised latent bits {lq}, hyper bits {hq}, target {tgt}"
            ok, r = t.attempt(what, m.rate_loss, original=img, latent_likelihoods=ll, quantized_latent_likelihoods=ql, hyper_latent_likelihoods=hl, quantized_hyper_latent_likelihoods=qh)
            t.state(lq, hq)
            t.trace()
            if not ok:
                return
            tot = [(a + b) / P for a, b in zip(lq, hq)]
            if any(math.isclose(x, tgt) for x in tot if x) and tgt:
                # exactly at the target is decided by rounding of the logarithm: nudge the target instead
                for eps, above in ((1e-3, False), (-1e-3, True)):
                    m2 = module(config(target_bpp=tgt + eps, lam_levels=(0.5, 4.0)))
                    r2 = m2.rate_loss(img, ll, ql, hl, qh)
                    w = sum((4.0 if x > tgt + eps else 0.5) * (a + b) / P for x, a, b in zip(tot, ln, hn)) / B
                    t.check(close(r2.rate_loss, w), f"{what} nudged by {eps}: rate loss {float(r2.rate_loss)}, expected {w}")
                    t.step()
            else:
                w = sum((4.0 if x > tgt else 0.5) * (a + b) / P for x, a, b in zip(tot, ln, hn)) / B
                t.check(close(r.rate_loss, w), f"{what}: rate loss {float(r.rate_loss)}, expected {w}")
            exp = dict(total_bpp=(sum(ln) + sum(hn)) / B / P, quantized_total_bpp=sum(tot) / B, latent_bpp=sum(ln) / B / P, quantized_latent_bpp=sum(lq) / B / P, hyper_bpp=sum(hn) / B / P, quantized_hyper_bpp=sum(hq) / B / P)
            for k, v in exp.items():
                g = getattr(r, k)
                t.check(close(g, v), f"{what}: {k} = {float(g)}, expected {v}")
                t.check(not g.requires_grad, f"{what}: {k} keeps the graph alive")
            if not any(math.isclose(x, tgt) for x in tot):
                r.rate_loss.backward()
                t.check(ql.grad is None and qh.grad is None, f"{what}: the quantised rates receive gradients")
                lam = [4.0 if x > tgt else 0.5 for x in tot]
                for nm, z in (("latent", ll), ("hyper", hl)):
                    want = torch.stack([-lam[i] / (B * P * math.log(2)) / z[i].detach() for i in range(B)])
                    t.check(z.grad is not None and torch.allclose(z.grad, want, rtol=1e-4), f"{what}: gradient of the {nm} likelihoods is not the weighted rate's")
            t.step()


def run_layout(t, case):
    m = module(config(target_bpp=0.5))
    for b, c, h, w in itertools.product((1, 2, 3), (1, 3), (1, 2, 3), (1, 2)):
        n = b * c * h * w
        p = ((torch.arange(n, dtype=torch.float32) * 7 % 5 + 1) / 8).reshape(b, c, h, w)
        hp = ((torch.arange(b * 2, dtype=torch.float32) % 3 + 1) / 4).reshape(b, 2, 1, 1)
        img = torch.zeros(b, 3, 4 * h, 2 * w)
        P = 8 * h * w
        bits = [sum(-math.log2(float(v)) for v in p[i].flatten()) for i in range(b)]
        hb = [sum(-math.log2(float(v)) for v in hp[i].flatten()) for i in range(b)]
        want = sum((4.0 if (x + y) / P > 0.5 else 0.5) * (x + y) / P for x, y in zip(bits, hb)) / b
        edge = any(abs((x + y) / P - 0.5) < 1e-4 for x, y in zip(bits, hb))
        for name, q in {"plain": p, "channels_last": p.to(memory_format=torch.channels_last), "transposed": p.transpose(2, 3).contiguous().transpose(2, 3), "strided": torch.stack([p, p * 0 + 0.5], -1)[..., 0], "double": p.double()}.items():
            ok, r = t.attempt(f"likelihoods {tuple(p.shape)} {name}", m.rate_loss, img, q, q, hp, hp)
            t.state(b, c, h, w, name)
            t.trace()
            if ok:
                t.check(edge or close(r.rate_loss, want), f"likelihoods {tuple(p.shape)} {name}: rate loss {float(r.rate_loss)}, expected {want}")
                t.check(close(r.latent_bpp, sum(bits) / b / P), f"likelihoods {tuple(p.shape)} {name}: latent rate {float(r.latent_bpp)}, expected {sum(bits) / b / P}")


def run_reject(t, case):
    for nf, ns, nl, nm in itertools.product(range(5), range(4), range(5), range(4)):
        kw = dict(target_factors=[1.0] * nf, target_steps=list(range(ns)), lam2_factors=[1.0] * nl, lam2_steps=list(range(nm)))
        if nf == ns + 1 and nl == nm + 1:
            ok, c = t.attempt(f"consistent schedule {(nf, ns, nl, nm)}", config, **kw)
            if ok:
                t.check(c.target_factors == kw["target_factors"] and c.target_steps == kw["target_steps"] and c.lam2_factors == kw["lam2_factors"] and c.lam2_steps == kw["lam2_steps"] and c.target_bpp == 1.0 and tuple(c.lam_levels) == (0.5, 4.0), f"schedule {(nf, ns, nl, nm)} is not stored as given")
        else:
            t.must_raise(f"schedule with {nf} factors, {ns} steps, {nl} weights, {nm} weight steps", ValueError, config, **kw)
        t.state(nf, ns, nl, nm)
        t.trace()


def run_shipped(t, case):
    """The rate targets shipped with the project, across their change step."""
    import glob
    import os
    import re
    for f in sorted(glob.glob(os.path.join(core.REPO, "projects/illm/conf/rate_target/*.yaml"))):
        txt = open(f).read()
        kv = dict(re.findall(r"^(\w+):\s*(.+)$", txt, re.M))
        kv.pop("_target_", None)
        kw = {k: eval(v, {"__builtins__": {}}) for k, v in kv.items()}
        ok, c = t.attempt(f"shipped target {os.path.basename(f)}", config, **kw)
        if not ok:
            continue
        m = module(c)
        for s in sorted({max(0, x + d) for x in c.target_steps + c.lam2_steps for d in (-1, 0, 1)} | {0, 10 ** 7}):
            m.trainer.global_step = s
            one = torch.ones(1, 1, 1, 1)
            r = m.rate_loss(torch.zeros(1, 3, 2, 2), one, one, one, one)
            t.check(math.isclose(r.target, c.target_bpp * c.target_factors[sum(x <= s for x in c.target_steps)]) and math.isclose(r.lam2, c.lam_levels[1] * c.lam2_factors[sum(x <= s for x in c.lam2_steps)]), f"{os.path.basename(f)} at step {s}: target {r.target}, weight {r.lam2}")
            t.state(os.path.basename(f), s)
            t.step()
        t.trace()


def run_case(t, case):
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
