"""C20: every schedule configuration in a lattice, stepped past its end, with a save/restore at every step (and at every pair of steps)."""
import io
import itertools
import math
import sys
import importlib.util
import os
import torch
from . import core

PID = "C20"
ASSUMPTIONS = ["'up to the last step' is num_max_steps (library schedules) or T_max-1 (VCT schedules); past it only definedness is required", "monotonicity is required where the phases do not overlap (ramp + cosine <= max)"]
MAXS = {"quick": 9, "thorough": 24}


def bounds(tier):
    m = MAXS[tier]
    return f"6 schedule classes x all (max, ramp, cosine) with max <= {m}, ramp <= max+1, cosine <= max x 3 minimum values x 1..3 parameter groups x every step to max+ramp+3; a checkpoint restored at every step and at every pair of steps; resumption through last_epoch"


def vct():
    p = os.path.join(core.REPO, "projects/torch_vct/utils/schedulers.py")
    spec = importlib.util.spec_from_file_location("vct_schedulers", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def cases(tier):
    for mx in range(1, MAXS[tier] + 1):
        for kind in ("identity", "ramp_cosine", "ramp_const_cosine", "vct_ramp_cosine", "vct_ramp_linear", "vct_warm_cosine"):
            yield {"kind": kind, "max": mx, "ckpt": True}
    for kind in ("ramp_cosine", "ramp_const_cosine", "vct_ramp_cosine", "vct_ramp_linear", "vct_warm_cosine"):
        yield {"kind": kind, "max": 40 if tier == "quick" else 200, "ckpt": False}


LRS = [0.25, 3e-4, 1.0]


def optimiser(ng):
    ps = [torch.nn.Parameter(torch.ones(1)) for _ in range(ng)]
    return torch.optim.SGD([{"params": [p], "lr": LRS[i]} for i, p in enumerate(ps)], lr=0.1)


def configs(case):
    mx = case["max"]
    k = case["kind"]
    ramps = range(0, mx + 2) if case["ckpt"] else sorted({0, 1, 2, 3, mx // 4, mx // 2, mx - 2, mx - 1, mx})
    if k == "identity":
        yield {}
    elif k == "ramp_cosine":
        for r in ramps:
            for mv in (1e-12, 0.0, 0.1):
                yield {"num_ramp_steps": r, "num_max_steps": mx, "min_val": mv}
    elif k == "ramp_const_cosine":
        for r in ramps:
            for c in ramps:
                if c > mx:
                    continue
                for mv in (1e-12, 0.1):
                    yield {"num_max_steps": mx, "num_ramp_steps": r, "num_cosine_steps": c, "min_val": mv}
    else:
        for r in ramps:
            if r > mx:
                continue
            if k == "vct_ramp_linear":
                yield {"T_max": mx, "ramp_len": r}
            else:
                for em in (0, 1e-4):
                    yield {"T_max": mx, "ramp_len": r, "eta_min": em}


def make(k, opt, cfg, m, **kw):
    from neuralcompression.optim import IdentitySchedule, RampConstCosineLRSchedule, RampCosineLRSchedule
    return {"identity": IdentitySchedule, "ramp_cosine": RampCosineLRSchedule, "ramp_const_cosine": RampConstCosineLRSchedule,
            "vct_ramp_cosine": m.LinearRampCosineLR, "vct_ramp_linear": m.LinearRampLinearLR, "vct_warm_cosine": m.LinearWarmUpCosineLR}[k](opt, **cfg, **kw)


def ref(k, cfg, step, lr):
    """The learning rate the schedule defines at a step (independent of the code)."""
    if k == "identity":
        return lr
    if k == "ramp_cosine":
        r, mx, mv = cfg["num_ramp_steps"], cfg["num_max_steps"], cfg["min_val"]
        f = step / r if step < r else math.cos((step - r) / mx * math.pi / 2)
        return lr * max(f, mv)
    if k == "ramp_const_cosine":
        r, c, mx, mv = cfg["num_ramp_steps"], cfg["num_cosine_steps"], cfg["num_max_steps"], cfg["min_val"]
        if step < r:
            return lr * max(step / r, mv)
        if c and step > mx - c:
            return lr * max(math.cos((step - (mx - c)) / c * math.pi / 2), mv)
        return lr
    r, mx = cfg["ramp_len"], cfg["T_max"]
    if step < r:
        return lr if k == "vct_warm_cosine" else lr * (1 + step) / r
    if k == "vct_ramp_linear":
        return lr
    n = mx - r - 1
    frac = (step - r) / n if n > 0 else float(step - r)
    return cfg["eta_min"] + (lr - cfg["eta_min"]) * (1 + math.cos(math.pi * frac)) / 2


def drive(opt, s, n):
    out = []
    for _ in range(n):
        opt.step()
        s.step()
        out.append([g["lr"] for g in opt.param_groups])
    return out


def close(a, b):
    return all(math.isfinite(x) and abs(x - y) <= 1e-12 + 1e-9 * abs(y) for x, y in zip(a, b)) and len(a) == len(b)


def roundtrip(obj):
    b = io.BytesIO()
    torch.save(obj, b)
    b.seek(0)
    return torch.load(b)


def run_case(t, case):
    m = vct()
    k = case["kind"]
    for cfg in configs(case):
        for ng in ((1, 3) if case["ckpt"] else (2,)):
            name = f"{k} {cfg} groups={ng}"
            opt = optimiser(ng)
            ok, s = t.attempt(name, make, k, opt, cfg, m)
            if not ok:
                continue
            last = case["max"] + max(cfg.get("num_ramp_steps", 0), 0) + 3
            first = [g["lr"] for g in opt.param_groups]
            ok, rest = t.attempt(f"{name} stepping to {last}", drive, opt, s, last)
            if not ok:
                continue
            lrs = [first] + rest
            t.trace()
            for step, got in enumerate(lrs):
                t.state(k, cfg, ng, step)
                want = [ref(k, cfg, step, LRS[i]) for i in range(ng)]
                if not t.check(close(got, want), f"{name}: learning rate at step {step} is {got}, defined as {want}"):
                    break
                t.check(all(g >= 0 for g in got), f"{name}: negative learning rate at {step}: {got}")
            t.check(list(s.get_last_lr()) == lrs[-1], f"{name}: get_last_lr")
            shape(t, k, cfg, [x[0] / LRS[0] for x in lrs], name, case["max"])
            if not case["ckpt"]:
                continue
            # interrupted runs
            pts = range(0, last + 1)
            for a in pts:
                interrupted(t, k, cfg, ng, m, lrs, (a,), last, name, fresh_steps=0)
            if ng == 1 and case["max"] <= 5:
                for a, b in itertools.combinations_with_replacement(pts, 2):
                    interrupted(t, k, cfg, ng, m, lrs, (a, b), last, name, fresh_steps=(a + b) % 3)
            if k.startswith("vct"):
                for a in range(0, case["max"] + 1):
                    resumed(t, k, cfg, ng, m, lrs, a, last, name)
        t.sample({"cfg": str(cfg), "lrs": lrs[:6]})


def shape(t, k, cfg, f, name, mx):
    """Phases: rise to one in the ramp, then never rise up to the last step."""
    r = cfg.get("num_ramp_steps", cfg.get("ramp_len", 0)) or 0
    c = cfg.get("num_cosine_steps", 0) or 0
    lastok = mx if not k.startswith("vct") else mx - 1
    if k == "identity":
        t.check(all(x == 1.0 for x in f), f"{name}: identity schedule changes the rate: {f}")
        return
    if r + c > mx or cfg.get("eta_min", 0) > LRS[0]:
        return
    up = [round(x, 12) for x in f[: min(r, lastok) + 1]]
    t.check(up == sorted(up), f"{name}: not rising during the ramp: {up}")
    top = r - 1 if k in ("vct_ramp_cosine", "vct_ramp_linear") else r
    if 0 <= top <= lastok:
        t.check(abs(f[top] - 1) < 1e-9, f"{name}: the ramp does not reach one: {f}")
    down = [round(x, 12) for x in f[max(top, 0): lastok + 1]]
    t.check(down == sorted(down, reverse=True), f"{name}: rises after the ramp: {down}")
    if k == "ramp_const_cosine":
        t.check(all(abs(x - 1) < 1e-12 for x in f[r: mx - c + 1]), f"{name}: not constant between the phases: {f}")
        if c:
            t.check(abs(f[mx] - max(cfg["min_val"], math.cos(math.pi / 2))) < 1e-9, f"{name}: the cosine does not end at the minimum: {f[mx]}")
    if k in ("vct_ramp_cosine", "vct_warm_cosine") and mx - r - 1 > 0:
        t.check(abs(f[lastok] - cfg["eta_min"] / LRS[0]) < 1e-9, f"{name}: does not end at eta_min: {f[lastok]}")


def interrupted(t, k, cfg, ng, m, lrs, pts, last, name, fresh_steps):
    opt = optimiser(ng)
    s = make(k, opt, cfg, m)
    got = [[g["lr"] for g in opt.param_groups]]
    at = 0
    for p in pts:
        got += drive(opt, s, p - at)
        at = p
        so, ss = roundtrip(opt.state_dict()), roundtrip(s.state_dict())
        opt = optimiser(ng)
        s = make(k, opt, cfg, m)
        drive(opt, s, fresh_steps)  # restoring must overwrite whatever the new objects did
        opt.load_state_dict(so)
        s.load_state_dict(ss)
        t.step()
        t.state(k, cfg, ng, pts, p)
        if not t.check([g["lr"] for g in opt.param_groups] == lrs[p], f"{name}: after restoring at step {p} the rate is {[g['lr'] for g in opt.param_groups]}, was {lrs[p]}"):
            return
        t.check(s.last_epoch == p and list(s.get_last_lr()) == lrs[p], f"{name}: restored schedule is at step {s.last_epoch} {s.get_last_lr()} instead of {p}")
    got += drive(opt, s, last - at)
    t.check(got == lrs, f"{name}: interrupted at {pts} gives {got}, uninterrupted {lrs}")
    t.trace()


def resumed(t, k, cfg, ng, m, lrs, a, last, name):
    """Resumption through the last_epoch argument (torch: the next step is a+1)."""
    opt = optimiser(ng)
    for i, g in enumerate(opt.param_groups):
        g["initial_lr"] = LRS[i]
    ok, s = t.attempt(f"{name} last_epoch={a}", make, k, opt, cfg, m, last_epoch=a)
    if not ok:
        return
    got = [[g["lr"] for g in opt.param_groups]] + drive(opt, s, last - a - 1)
    t.check(all(close(x, y) for x, y in zip(got, lrs[a + 1:])) and len(got) == len(lrs) - a - 1, f"{name}: resumed with last_epoch={a} gives {got[:3]}..., expected {lrs[a+1:a+4]}")
    t.trace()


if __name__ == "__main__":
    core.main(sys.modules[__name__])
