"""C35: VCT training, validation and test steps against their definition, on every small clip, level pair and step history."""
import copy
import itertools
import math
import sys
import types
import torch
import torch.nn as nn
from . import core

PID = "C35"
ASSUMPTIONS = ["the training framework (pytorch_lightning, hydra, omegaconf, wandb: not installed) is replaced by a stand-in",
               "the definition slices use a stand-in pipeline whose reconstruction and likelihoods are chosen by the check; the history slices use the real pipeline at reduced width",
               "test clips have at least two frames (rates without the first frame are undefined otherwise)"]
LAM = 0.01


def bounds(tier):
    return ("all 256 level differences x 3 base levels and out-of-range reconstructions; all clips with batch 1..3, 1..4 frames, %s frame sizes x likelihood patterns x distortion weights; all histories of up to %d training, validation and "
            "test steps on the real pipeline" % (("3", 3) if tier == "quick" else ("5", 4)))


def cases(tier):
    q = tier == "quick"
    for base in (0, 17, 255):
        yield {"kind": "levels", "base": base}
    sizes = [(1, 2), (3, 2), (4, 4)] + ([] if q else [(5, 3), (8, 8)])
    for b, t_, s in itertools.product((1, 2, 3), (1, 2, 3, 4), sizes):
        yield {"kind": "steps", "b": b, "t": t_, "s": list(s)}
    for t_, s in itertools.product((2, 3, 4), sizes):
        yield {"kind": "test", "t": t_, "s": list(s)}
    for first in ("train", "val", "test"):
        yield {"kind": "hist", "first": first, "depth": 3 if q else 4}
    yield {"kind": "optim"}
    yield {"kind": "images"}


class Pipe(nn.Module):
    """Reconstruction = gain * input + error, likelihoods = given tensor; strings cost the given bits."""

    def __init__(self, err=0.0, lik=None, bits=None, gain=1.0):
        super().__init__()
        self.gain = nn.Parameter(torch.tensor(float(gain)))
        self.p = nn.Parameter(torch.tensor(0.0))
        self.frozen = nn.Parameter(torch.tensor(1.0), requires_grad=False)
        self.bottleneck = nn.Module()
        self.bottleneck.quantiles = nn.Parameter(torch.zeros(3))
        self.err, self.lik, self.bits = err, lik, bits
        self._code_to_strings = None
        self.calls = []

    def forward(self, video):
        self.calls.append(("forward", self.training, self._code_to_strings))
        return self.gain * video.video_tensor + self.err, [self.lik * torch.exp(self.p)]

    def compute_rate(self, lik, per_frame=False):
        return (lik.log().sum(dim=(1, 2, 3)) if per_frame else lik.log().sum()) / -math.log(2.0)

    def compress_video(self, video, force_cpu=False):
        self.calls.append(("compress",))
        return video.video_tensor * 0.5, list(self.bits)

    def decompress_video(self, shape, bottleneck_args, force_cpu=False):
        self.calls.append(("decompress", tuple(shape)))
        return bottleneck_args[0] * 2 + self.err * 0.5


def mods():
    from . import fakelightning as fl
    ml = fl.project("torch_vct", "model_lightning")
    from datamodules.video_data_api import VideoDataset
    return ml, VideoDataset, fl


def cfg(lam=LAM, **k):
    return types.SimpleNamespace(optim=k.get("optim"), scheduler=k.get("scheduler"), training_loop=types.SimpleNamespace(lr_annealing_frequency=7, distortion_lambda=lam))


def lev(x):
    return torch.floor(x.double().clamp(0, 1).float() * 255 + 0.5).double()


def psnr(a, b, rng):
    mse = float((a.double() - b.double()).pow(2).mean())
    return math.inf if mse == 0 else 10 * math.log10(rng * rng / mse)


def mean_psnr(a, b, rng):
    v = [psnr(a[i, j], b[i, j], rng) for i in range(a.shape[0]) for j in range(a.shape[1])]
    return sum(v) / len(v)


def val(x):
    return float(x.detach()) if isinstance(x, torch.Tensor) else float(x)


def same(a, b, tol=2e-4):
    return a == b or abs(a - b) <= tol * (1 + abs(b))


def check_steps(t, ml, VD, pipe, x, lam, what):
    """Training and validation of one clip against the definition."""
    b, T, _, h, w = x.shape
    m = ml.VCTModule(pipe, cfg(lam))
    rec = (pipe.gain * x + pipe.err).detach()
    dist = [(rec[:, i].double() - x[:, i].double()).pow(2).mean().item() for i in range(T)]
    rate = [-(pipe.lik[i] * torch.exp(pipe.p.detach())).double().log2().sum().item() / (b * h * w) for i in range(T)]
    comb = [lam * 255 ** 2 * d + r for d, r in zip(dist, rate)]
    wgt = sum(c * (1.0 if i == 0 else 10.0) for i, c in enumerate(comb)) / T
    want = {"distortion_loss": sum(dist) / T, "rate_loss": sum(rate) / T, "combined_loss": sum(comb) / T, "combined_loss_weighted": wgt, "PSNR": mean_psnr(rec, x, 1.0), "PSNR_int": mean_psnr(lev(rec), lev(x), 255.0)}
    m.train()
    ok, loss = t.attempt(f"training step {what}", m.training_step, VD(x.clone()), 0)
    if ok:
        t.check(same(val(loss), wgt), f"training loss {what}: {val(loss)}, definition gives {wgt}")
        for k, v in want.items():
            t.check(k in m.logged and same(val(m.logged[k]), v), f"training {k} {what}: logged {m.logged.get(k)}, definition gives {v}")
        m.zero_grad()
        loss.backward()
        # derivative with respect to the likelihood scale: -numel/ln 2 bits per frame
        n = pipe.lik[0].numel()
        g = sum((1.0 if i == 0 else 10.0) * -n / math.log(2) / (b * h * w) for i in range(T)) / T
        t.check(same(float(pipe.p.grad), g), f"training gradient {what}: {float(pipe.p.grad)} instead of {g}")
        gg = sum((1.0 if i == 0 else 10.0) * lam * 255 ** 2 * float((2 * (rec[:, i].double() - x[:, i].double()) * x[:, i].double()).mean()) for i in range(T)) / T
        t.check(same(float(pipe.gain.grad), gg, 1e-3), f"training distortion gradient {what}: {float(pipe.gain.grad)} instead of {gg}")
    m.eval()
    m.logged.clear()
    with torch.no_grad():
        ok, _ = t.attempt(f"validation step {what}", m.validation_step, VD(x.clone()), 0)
    if ok:
        for k, v in want.items():
            t.check("val_" + k in m.logged and same(val(m.logged["val_" + k]), v), f"validation {k} {what}: logged {m.logged.get('val_' + k)}, definition gives {v}")
    t.trace()


def run_levels(t, case):
    ml, VD, fl = mods()
    lik = torch.full((1, 1, 1, 1), 0.5)
    for target in range(256):
        x = torch.full((1, 1, 3, 2, 2), case["base"] / 255)
        x[..., 1, 1] = ((case["base"] + 40) % 256) / 255
        err = target / 255 - case["base"] / 255
        check_steps(t, ml, VD, Pipe(err, lik), x, LAM, f"levels {case['base']}->{target}")
        t.state(case["base"], target)
    for e in (-3.0, -1.2, -0.01, -1 / 1020, 1 / 1020, 0.01, 1.2, 2.0, 300.0):
        check_steps(t, ml, VD, Pipe(e, lik), torch.full((1, 1, 3, 2, 2), case["base"] / 255), LAM, f"level {case['base']} off by {e}")
        t.state("range", case["base"], e)


def clip(b, T, h, w, seed=0):
    g = torch.Generator().manual_seed(b * 100 + T * 10 + h + w + seed)
    return torch.randint(0, 256, (b, T, 3, h, w), generator=g).float() / 255


def liks(T, b):
    for shape in ((b, 1, 1), (2, b, 3), (1, 2, 2)):
        n = math.prod(shape)
        yield torch.full((T,) + shape, 0.25)
        yield torch.stack([(torch.arange(n).reshape(shape) + 1.0) / (n + 2) * (0.9 ** i) for i in range(T)])
        yield torch.stack([torch.full(shape, 1e-9 if i == T - 1 else 1.0) for i in range(T)])


def run_steps(t, case):
    ml, VD, fl = mods()
    b, T, (h, w) = case["b"], case["t"], case["s"]
    x = clip(b, T, h, w)
    per = torch.arange(b * T).reshape(b, T, 1, 1, 1).float() / (2 * b * T)
    for li, lik in enumerate(liks(T, b)):
        for err, lam in itertools.product((0.0, 0.2, "frame", -0.7), (0.0, 0.01, 3.0)):
            check_steps(t, ml, VD, Pipe(per + 0.01 if err == "frame" else err, lik, gain=0.8), x, lam, f"clip {tuple(x.shape)} likelihoods {li} error {err} weight {lam}")
            t.state(b, T, h, w, li, str(err), lam)


def run_test(t, case):
    ml, VD, fl = mods()
    T, (h, w) = case["t"], case["s"]
    x = clip(1, T, h, w)
    for li, lik in enumerate(liks(T, 1)):
        for err, fwd in itertools.product((0.0, 0.13, 0.9, -2.0), (True, False)):
            bits = [10.0 * (i + 1) ** 2 + li for i in range(T)]
            p = Pipe(err, lik, bits)
            p._code_to_strings = True
            m = ml.VCTModule(p, cfg())
            m.eval()
            m.logged.clear()
            what = f"test clip {tuple(x.shape)} likelihoods {li} error {err} run_fwd={fwd}"
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                ok, r = t.attempt(what, m.test_step, VD(x.clone()), 0, fwd)
            if not ok:
                continue
            dec = x + err * 0.5
            want = {"psnt_int": psnr(lev(dec[0]), lev(x[0]), 255.0), "bpp": sum(bits) / (h * w * T), "bpp_xfirst": sum(bits[1:]) / (h * w * (T - 1))}
            t.check(len(r) == 3 and all(same(val(a), b) for a, b in zip(r, want.values())), f"{what}: returned {r}, definition gives {list(want.values())}")
            if fwd:
                bl = [-(lik[i]).double().log2().sum().item() for i in range(T)]
                want.update(cts_psnr=psnr(lev(x[0] + err), lev(x[0]), 255.0), cts_rate=sum(bl) / (h * w * T), cts_rate_x1=sum(bl[1:]) / (h * w * (T - 1)))
            for k, v in want.items():
                t.check(k in m.logged and same(val(m.logged[k]), v), f"{what}: {k} logged {m.logged.get(k)}, definition gives {v}")
            t.check(set(m.logged) == set(want), f"{what}: logged {sorted(m.logged)}")
            for c in p.calls:
                t.check(c[0] != "forward" or (not c[1] and not c[2]), f"{what}: likelihood pass ran in training or string mode")
                t.check(c[0] != "decompress" or c[1] == tuple(x.shape), f"{what}: decoded to shape {c}")
            t.state(T, h, w, li, err, fwd)
            t.trace()
    m = ml.VCTModule(Pipe(0.0, torch.ones(2, 1, 1, 1), [1.0, 1.0]), cfg())
    m.eval()
    t.must_raise("test batch of two", (AssertionError, ValueError), m.test_step, VD(clip(2, 2, h, w)), 0)
    m.train()
    t.must_raise("test step in training mode", (AssertionError, ValueError, RuntimeError), m.test_step, VD(x), 0)


def run_hist(t, case):
    """Every history of steps on the real pipeline; validation and test leave no trace in later training."""
    import contextlib
    import io
    from . import c08
    ml, VD, fl = mods()
    x, y = c08.clip(1, 3, 32, 32), c08.clip(1, 2, 33, 40, seed=2)

    def run(hist):
        m = ml.VCTModule(c08.make(2), cfg(0.001, optim=lambda params: torch.optim.SGD(list(params), lr=1e-4), scheduler=lambda optimizer: torch.optim.lr_scheduler.StepLR(optimizer, 5)))
        opt = m.configure_optimizers()["optimizer"]
        out = []
        for op in hist:
            m.logged.clear()
            if op == "train":
                m.train()
                torch.manual_seed(11)
                opt.zero_grad()
                loss = m.training_step(VD(x.clone()), 0)
                loss.backward()
                opt.step()
                out.append(("train", float(loss)))
            elif op == "val":
                m.eval()
                with torch.no_grad():
                    m.validation_step(VD(y.clone()), 0)
                out.append(("val", {k: val(v) for k, v in m.logged.items()}))
            else:
                m.eval()
                with contextlib.redirect_stdout(io.StringIO()):
                    m.test_step(VD(y.clone()), 0)
                out.append(("test", {k: val(v) for k, v in m.logged.items()}))
        return m, out
    memo = {}

    def trained(n):
        if n not in memo:
            memo[n] = run(("train",) * n)
        return memo[n]
    alone = {}

    def single(n, op):
        if (n, op) not in alone:
            alone[(n, op)] = run(("train",) * n + (op,))[1][-1]
        return alone[(n, op)]
    for d in range(1, case["depth"] + 1):
        for rest in itertools.product(("train", "val", "test"), repeat=d - 1):
            h = (case["first"],) + rest
            ok, r = t.attempt(f"history {h}", run, h)
            if not ok:
                continue
            m, out = r
            n = h.count("train")
            ref = dict(trained(n)[0].named_parameters())
            t.check(all(torch.equal(p, ref[k]) for k, p in m.named_parameters()), f"history {h}: weights differ from {n} training steps alone")
            k = 0
            for op, o in zip(h, out):
                if op == "train":
                    t.check(o == trained(n)[1][k], f"history {h}: training step {k} gives loss {o[1]}, alone {trained(n)[1][k][1]}")
                    k += 1
                else:
                    t.check(o == single(k, op), f"history {h}: {op} after {k} training steps reports {o[1]}, alone {single(k, op)[1]}")
                    t.check(all(math.isfinite(v) for v in o[1].values()), f"history {h}: {o}")
                t.step()
            t.state(h)
            t.trace()
    # the reported string rate is that of the strings
    m, _ = trained(0) if 0 in memo else run(())
    m.eval()
    with torch.no_grad(), contextlib.redirect_stdout(io.StringIO()):
        m.test_step(VD(y.clone()), 0)
        rec, bits = m.model.compress_video(VD(y.clone()))
        dec = m.model.decompress_video(y.shape, [rec])
    h, w = y.shape[-2:]
    t.check(same(val(m.logged["bpp"]), sum(bits) / (h * w * 2)), f"bpp {m.logged['bpp']}, the strings have {sum(bits) / (h * w * 2)}")
    t.check(same(val(m.logged["psnt_int"]), psnr(lev(dec[0]), lev(y[0]), 255.0)), f"PSNR of the decoded clip {m.logged['psnt_int']}")
    with torch.no_grad():
        fr, args = m.model(VD(y.clone()))
    lk = args[0].double().log2()
    t.check(same(val(m.logged["cts_rate"]), -float(lk.sum()) / (h * w * 2)) and same(val(m.logged["cts_rate_x1"]), -float(lk[1:].sum()) / (h * w)), "likelihood rate of the real pipeline")


def run_optim(t, case):
    ml, VD, fl = mods()
    seen = {}

    def opt(params):
        seen["p"] = list(params)
        return torch.optim.Adam(seen["p"], lr=0.1)

    def sched(optimizer):
        seen["o"] = optimizer
        return torch.optim.lr_scheduler.StepLR(optimizer, 3)
    for frozen in itertools.product((0, 1), repeat=2):
        p = Pipe(0.0, torch.ones(1, 1, 1, 1))
        p.gain.requires_grad_(not frozen[0])
        p.bottleneck.quantiles.requires_grad_(not frozen[1])
        m = ml.VCTModule(p, cfg(optim=opt, scheduler=sched))
        ok, c = t.attempt(f"optimisers frozen={frozen}", m.configure_optimizers)
        if ok:
            want = {id(q) for n, q in p.named_parameters() if q.requires_grad and not n.endswith("quantiles")}
            got = [id(q) for g in c["optimizer"].param_groups for q in g["params"]]
            t.check(set(got) == want and len(got) == len(want), f"frozen={frozen}: optimises {len(got)} parameters, expected {len(want)}")
            s = c["lr_scheduler"]
            t.check(seen["o"] is c["optimizer"] and s["interval"] == "step" and s["frequency"] == 7 and s["scheduler"].optimizer is c["optimizer"], f"scheduler settings {s}")
        t.state("optim", frozen)


def run_images(t, case):
    ml, VD, fl = mods()
    mt = fl.project("torch_vct", "model_train")
    from torchvision.utils import make_grid
    for T, err, gain in itertools.product((1, 2, 8), (-2.0, 0.0, 0.3), (1.0, 0.5)):
        a, b = clip(2, T, 4, 4), clip(1, T, 4, 4, seed=3)
        a0, b0 = a.clone(), b.clone()
        cb = mt.WandbImageCallback(VD(a), VD(b))
        m = ml.VCTModule(Pipe(err, torch.ones(T, 1, 1, 1), gain=gain), cfg())
        m.eval()
        items = []
        tr = types.SimpleNamespace(logger=types.SimpleNamespace(experiment=types.SimpleNamespace(log=items.append)))
        for rep in range(2):
            items.clear()
            with torch.no_grad():
                ok, _ = t.attempt("image logging", cb.on_validation_end, tr, m)
            got = {k: v.data for d in items for k, v in d.items() if isinstance(v, fl.Image)}
            for key, src in (("train_images", a0), ("eval_images", b0)):
                for name, want in (("image", src[0]), ("image_compressed", (gain * src[0] + err).clamp(0, 1))):
                    w = make_grid(want, nrow=7)
                    g = got.get(f"{key}/{name}")
                    t.check(g is not None and g.shape == w.shape and torch.allclose(g, w, atol=1e-6), f"logged {key}/{name} is not the clip (T={T}, error {err}, call {rep})")
        t.state("images", T, err, gain)
        t.trace()


def run_case(t, case):
    torch.set_num_threads(1)
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
