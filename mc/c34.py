"""C34: staged DVC training, replayed update by update against an independent reference on every short history."""
import copy
import itertools
import math
import sys
import torch
import torch.nn as nn
import torch.nn.functional as F
from . import core

PID = "C34"
ASSUMPTIONS = ["the training framework (pytorch_lightning: not installed) is replaced by a stand-in offering manual optimisation",
               "the exact replay uses small deterministic parts with the library's interface inside the real DVC composition; the real parts are used in the stage-sequence slices",
               "the pretrained I-frame codec (a download) is a deterministic stand-in with compressai's interface"]
STAGES = ["1_motion_estimation", "2_motion_compression", "3_motion_compensation", "4_total_2frame", "5_total"]
PARTS = ["motion_estimator", "motion_encoder", "motion_entropy_bottleneck", "motion_decoder", "motion_compensation", "residual_encoder", "residual_entropy_bottleneck", "residual_decoder"]
OWN = {1: PARTS[:1], 2: PARTS[:4], 3: PARTS[:5], 4: PARTS, 5: PARTS}
OPS = ["train_a", "train_b", "val", "images", "update"]
LAM, LR, AUX = 3.0, 0.01, 0.05


def bounds(tier):
    return ("all histories of up to %d operations over {training batch A, training batch B, validation, image logging, table update} x 5 stages x 1..3 P-frames x 2 clipping values x with/without step schedule, every update and every logged "
            "value compared with an independent computation; all stage sequences (each stage skipped or run) with the real parts and recomposition" % (3 if tier == "quick" else 4))


def cases(tier):
    d = 3 if tier == "quick" else 4
    for st, np_, clip, sched in itertools.product(range(5), (1, 2, 3), (0.01, 1e3), (0, 1)):
        yield {"kind": "hist", "st": st, "np": np_, "clip": clip, "sched": sched, "depth": d if np_ < 3 else d - 1}
    for st in range(5):
        yield {"kind": "frozen", "st": st}
    for first in range(5):
        yield {"kind": "seq", "first": first}
    yield {"kind": "reject"}


class Est(nn.Module):
    def __init__(self):
        super().__init__()
        self.c = nn.Conv2d(6, 2, 3, padding=1)

    def calculate_flow_with_image_pairs(self, a, b):
        import neuralcompression.functional as ncF
        flow = 0.2 * torch.tanh(self.c(torch.cat([a, b], 1)))
        half = F.avg_pool2d(flow, 2)
        a2, b2 = F.avg_pool2d(a, 2), F.avg_pool2d(b, 2)
        return flow, [(ncF.dense_image_warp(a2, half.permute(0, 2, 3, 1)), b2), (ncF.dense_image_warp(a, flow.permute(0, 2, 3, 1)), b)]

    def forward(self, a, b):
        return self.calculate_flow_with_image_pairs(a, b)[0]


class Enc(nn.Module):
    def __init__(self, ci):
        super().__init__()
        self.c = nn.Conv2d(ci, 2, 2, 2)

    def forward(self, x):
        return self.c(x), [x.shape[-2:]]


class Dec(nn.Module):
    def __init__(self, co):
        super().__init__()
        self.c = nn.ConvTranspose2d(2, co, 2, 2)

    def forward(self, x, sizes):
        return 0.3 * torch.tanh(self.c(x))


class Comp(nn.Module):
    def __init__(self):
        super().__init__()
        self.c = nn.Conv2d(8, 3, 1)

    def forward(self, a, b, flow):
        return b + 0.1 * self.c(torch.cat([a, b, flow], 1))


class Bottle(nn.Module):
    def __init__(self, tag):
        super().__init__()
        self.quantiles = nn.Parameter(torch.tensor([[-1.0, 0.5 + tag, 3.0]]))
        self.scale = nn.Parameter(torch.tensor(0.3 + tag))
        self.updates = []
        self.changed = True

    def forward(self, x):
        return x + 0.01, torch.sigmoid(self.scale * x + 0.4) * 0.9 + 0.05

    def loss(self):
        return (self.quantiles * torch.tensor([[1.0, 2.0, -1.0]], dtype=self.quantiles.dtype) + self.scale).abs().sum()

    def update(self, force=False):
        self.updates.append(bool(force))
        return self.changed


class IFrame(nn.Module):
    def __init__(self):
        super().__init__()
        self.g = nn.Parameter(torch.tensor(0.9))
        self.seen, self.modes = [], []

    def update(self, *a, **k):
        return False

    def forward(self, x):
        self.seen.append(x.detach().clone())
        self.modes.append((self.training, torch.is_grad_enabled()))
        return {"x_hat": self.g * x + 0.03, "likelihoods": {"y": torch.sigmoid(x[:, :1] * self.g) * 0.5 + 0.1, "z": torch.sigmoid(x[:, :2, ::2, ::2]) * 0.8 + 0.1}}


def toy(seed=0):
    from neuralcompression.models import DVC
    torch.manual_seed(seed)
    return DVC(coder_channels=2, motion_estimator=Est(), motion_encoder=Enc(2), motion_entropy_bottleneck=Bottle(0.0), motion_decoder=Dec(2), motion_compensation=Comp(),
               residual_encoder=Enc(3), residual_entropy_bottleneck=Bottle(0.125), residual_decoder=Dec(3)).double()


def video(seed, n=4, b=2, s=(6, 8)):
    """No two dimensions are equal."""
    g = torch.Generator().manual_seed(100 + seed)
    return torch.rand((b, n, 3) + tuple(s), generator=g, dtype=torch.float64)


class Psnr(nn.Module):
    def __init__(self, *a, **k):
        super().__init__()
        self.calls = []

    def forward(self, a, b):
        self.calls.append((a.detach().clone(), b.detach().clone()))
        return torch.zeros(())


def frame(p, st, a, b):
    """One P-frame from the definition: (distortion, flow bits, residual bits, estimate) with p the reference DVC."""
    import neuralcompression.functional as ncF
    pix = a.shape[0] * a.shape[-1] * a.shape[-2]
    if st == 1:
        flow, pairs = p.motion_estimator.calculate_flow_with_image_pairs(a, b)
        dist = sum(LAM * (x - y).pow(2).mean() for x, y in pairs) / len(pairs)
        return dist, None, None, ncF.dense_image_warp(a, flow.permute(0, 2, 3, 1)).detach(), flow.detach()
    lat, sizes = p.motion_encoder(p.motion_estimator(a, b))
    lat, pf = p.motion_entropy_bottleneck(lat)
    flow = p.motion_decoder(lat, sizes)
    est = ncF.dense_image_warp(a, flow.permute(0, 2, 3, 1))
    fb = -pf.log2().sum() / pix
    rb = None
    if st >= 3:
        est = p.motion_compensation(a, est, flow)
    if st >= 4:
        r, sizes = p.residual_encoder(b - est)
        r, pr = p.residual_entropy_bottleneck(r)
        est = est + p.residual_decoder(r, sizes)
        rb = -pr.log2().sum() / pix
    return LAM * (b - est).pow(2).mean(), fb, rb, est.detach(), flow.detach()


class Ref:
    """Reference trainer: own Adam, own clipping, own parameter grouping."""

    def __init__(self, dvc, st, np_, clip, sched):
        self.p, self.st, self.np, self.clip, self.sched = copy.deepcopy(dvc), st, np_, clip, sched
        self.lr, self.nstep = LR, 0
        own = OWN[st]
        self.main = [(n, q) for n, q in self.p.named_parameters() if n.split(".")[0] in own and not n.endswith("quantiles") and q.requires_grad]
        self.quant = [(n, q) for n, q in self.p.named_parameters() if n.split(".")[0] in own and n.endswith("quantiles") and q.requires_grad]
        self.mom = {}

    def adam(self, name, q, g, lr):
        m, v, k = self.mom.get(name, (torch.zeros_like(q), torch.zeros_like(q), 0))
        k += 1
        m, v = 0.9 * m + 0.1 * g, 0.999 * v + 0.001 * g * g
        self.mom[name] = (m, v, k)
        with torch.no_grad():
            q -= lr * (m / (1 - 0.9 ** k)) / ((v / (1 - 0.999 ** k)).sqrt() + 1e-8)

    def gop(self, batch, train):
        x0 = batch[:, 0]
        pix = x0.shape[0] * x0.shape[-1] * x0.shape[-2]
        a = (0.9 * x0 + 0.03) if batch.dtype == torch.float64 else None
        ib = -(torch.sigmoid(x0[:, :1] * 0.9) * 0.5 + 0.1).log2().sum() / pix - (torch.sigmoid(x0[:, :2, ::2, ::2]) * 0.8 + 0.1).log2().sum() / pix
        tot = dict(loss=0.0, dist=0.0, bpp=float(ib), flow=None, resid=None)
        imgs, ests, flows, firsts, last = [], [], [], [], None
        for i in range(self.np):
            b = batch[:, i + 1]
            firsts.append(a)
            d, fb, rb, est, flow = frame(self.p, self.st, a, b)
            loss = d
            for key, v in (("flow", fb), ("resid", rb)):
                if v is not None:
                    loss = loss + v
                    tot[key] = (tot[key] or 0.0) + float(v)
                    tot["bpp"] += float(v)
            tot["loss"] += float(loss)
            tot["dist"] += float(d)
            last = float(loss)
            if train:
                gs = torch.autograd.grad(loss, [q for _, q in self.main], allow_unused=True)
                n = math.sqrt(sum(float(g.pow(2).sum()) for g in gs if g is not None))
                f = min(1.0, self.clip / (n + 1e-6))
                for (name, q), g in zip(self.main, gs):
                    if g is not None:
                        self.adam(name, q, g * f, self.lr)
            imgs.append(b)
            ests.append(est)
            flows.append(flow)
            a = est
        if train:
            self.nstep += 1
            if self.sched:
                self.lr = LR * 0.5 ** (self.nstep // 2)
            if self.st > 1:
                q = sum((bt.quantiles * torch.tensor([[1.0, 2.0, -1.0]], dtype=torch.float64) + bt.scale).abs().sum() for bt in
                        ([self.p.motion_entropy_bottleneck] + ([self.p.residual_entropy_bottleneck] if self.st >= 4 else [])))
                tot["q"] = float(q)
                if self.quant:
                    for (name, p), g in zip(self.quant, torch.autograd.grad(q, [p for _, p in self.quant])):
                        self.adam(name, p, g, AUX)
        return tot, imgs, ests, flows, firsts, last


def make(dvc, st, np_, clip, sched, double=True):
    from . import fakelightning as fl
    import torchmetrics
    mod = fl.project("deep_video_compression", "dvc_module")
    torchmetrics.PSNR = Psnr
    mod.models["verif-toy"] = lambda quality, pretrained=False, **k: IFrame()
    m = mod.DvcModule(dvc, STAGES[st - 1], "verif-toy", 3, num_pframes=np_, distortion_lambda=LAM, learning_rate=LR, aux_learning_rate=AUX,
                      lr_scheduler_params={"step_size": 2, "gamma": 0.5} if sched else None, grad_clip_value=clip)
    if double:
        m.double()
    cfg = m.configure_optimizers()
    cfg = cfg if isinstance(cfg, (list, tuple)) else [cfg]
    m._opts = [c["optimizer"] if isinstance(c, dict) else c for c in cfg]
    sc = [c["lr_scheduler"] for c in cfg if isinstance(c, dict) and c.get("lr_scheduler") is not None]
    sc = [s["scheduler"] if isinstance(s, dict) else s for s in sc]
    m._scheds = sc
    m.lr_schedulers = lambda: None if not sc else (sc[0] if len(sc) == 1 else sc)
    return m


def same(a, b, tol=1e-8):
    return abs(a - b) <= tol * (1 + abs(b))


def val(x):
    return float(x.detach()) if isinstance(x, torch.Tensor) else float(x)


def compare(t, dvc, ref, what):
    r = dict(ref.p.named_parameters())
    for n, q in dvc.named_parameters():
        if not t.check(q.shape == r[n].shape and float((q - r[n]).abs().max()) <= 2e-6, f"{what}: parameter {n} moved by {(q - r[n]).abs().max().item():.3g} from what its own loss gives"):
            return False
    return True


def run_hist(t, case, freeze=None):
    from . import fakelightning as fl
    st, np_ = case["st"] + 1, case["np"]
    base = toy(st)
    batches = {"train_a": video(1), "train_b": video(2), "val": video(3), "images": video(4, b=3)}

    def fresh():
        dvc = copy.deepcopy(base)
        if freeze:
            for q in getattr(dvc, freeze).parameters():
                q.requires_grad_(False)
        m = make(dvc, st, np_, case["clip"], case["sched"])
        cb = fl.project("deep_video_compression", "train").WandbImageCallback(batches["images"].clone())
        return (dvc, m, cb), Ref(dvc, st, np_, case["clip"], case["sched"])

    def apply(impl, ref, op, check):
        dvc, m, cb = impl
        what = f"{m.training_stage} {np_} P-frames frozen={freeze} op {op}"
        m.logged.clear()
        m.psnr.calls.clear()
        m.iframe_model.seen.clear()
        m.iframe_model.modes.clear()
        if op == "update":
            n = [len(dvc.motion_entropy_bottleneck.updates), len(dvc.residual_entropy_bottleneck.updates)]
            ok, r = t.attempt(what, m.update)
            n = [len(dvc.motion_entropy_bottleneck.updates) - n[0], len(dvc.residual_entropy_bottleneck.updates) - n[1]]
            if ok and check:
                t.check(n == [int(st >= 2), int(st >= 4)], f"{what}: tables updated {n}")
                t.check(st == 1 or (r is True and dvc.motion_entropy_bottleneck.updates[-1] is True), f"{what}: update does not force or reports {r}")
            return
        if op == "images":
            class Log:
                def __init__(self):
                    self.items = []

                def log(self, d):
                    self.items.append(d)
            tr = type("T", (), {})()
            tr.logger = type("L", (), {})()
            tr.logger.experiment = Log()
            m.eval()
            m.__class__.dtype = property(lambda self: torch.float64)
            with torch.no_grad():
                ok, _ = t.attempt(what, cb.on_validation_end, tr, m)
                tot, imgs, ests, flows, firsts, last = ref.gop(batches["images"], False)
            if ok and check:
                got = {k.split("/")[-1]: v.data for d in tr.logger.experiment.items for k, v in d.items() if isinstance(v, fl.Image)}
                for key, seq in (("image1", firsts), ("image2", imgs), ("image2_est", ests)):
                    want = torch.cat([torch.cat([f[i] for f in seq], -1) for i in range(3)], -2).clamp(0, 1)
                    t.check(key in got and got[key].shape == want.shape and float((got[key] - want).abs().max()) < 1e-7, f"{what}: logged {key} is not the one of the given clips")
                t.check("flow" in got, f"{what}: flow not logged")
            return
        train = op.startswith("train")
        m.train(train)
        x = batches[op].clone()
        if train:
            ok, _ = t.attempt(what, m.training_step, x, 0)
        else:
            with torch.no_grad():
                ok, _ = t.attempt(what, m.validation_step, x, 0)
        tot, imgs, ests, flows, firsts, last = ref.gop(batches[op], train)
        if not ok or not check:
            return
        key = f"{m.training_stage}/{'train' if train else 'val'}_"
        red = np_ + 1
        want = {"gop_loss": tot["loss"] / red, "gop_distortion_loss": tot["dist"] / red, "gop_bpp": tot["bpp"] / red}
        if st >= 2:
            want["gop_flow_bpp"] = tot["flow"] / red
        if st >= 4:
            want["gop_residual_bpp"] = tot["resid"] / red
        if train and st >= 2:
            want["quantile_loss"] = tot["q"]
        for k, v in want.items():
            t.check(key + k in m.logged and same(val(m.logged[key + k]), v), f"{what}: {k} logged as {m.logged.get(key + k)}, the clip has {v}")
        for k in ("gop_flow_bpp", "gop_residual_bpp"):
            t.check(k in want or key + k not in m.logged, f"{what}: {k} logged for a stage without it")
        if not train:
            t.check("val_loss" in m.logged and math.isfinite(val(m.logged["val_loss"])), f"{what}: no val_loss to select checkpoints by")
        t.check(len(m.psnr.calls) == 1, f"{what}: {len(m.psnr.calls)} PSNR updates")
        for a, b in m.psnr.calls:
            i, e = torch.cat(imgs), torch.cat(ests)
            if a.shape == i.shape and float((a - i).abs().max()) > 1e-7:
                a, b = b, a
            t.check(a.shape == i.shape and float((a - i).abs().max()) < 1e-7 and b.shape == e.shape and float((b - e).abs().max()) < 1e-7, f"{what}: PSNR is not of the P-frames and their estimates")
        t.check(len(m.iframe_model.seen) == 1 and torch.equal(m.iframe_model.seen[0], batches[op][:, 0]) and m.iframe_model.modes[0][0] is False, f"{what}: the I-frame codec did not see the first frame once, in evaluation mode")

    def inv(impl, ref, hist):
        dvc, m, cb = impl
        compare(t, dvc, ref, f"{m.training_stage} {np_} P-frames frozen={freeze} after {hist}")
        t.check(float(m.iframe_model.g.detach()) == float(torch.tensor(0.9).double()) or abs(float(m.iframe_model.g.detach()) - 0.9) < 1e-6, "the I-frame codec was trained")
        t.check(not any(q is m.iframe_model.g for o in m._opts for g in o.param_groups for q in g["params"]), "the I-frame codec is being optimised")
        d2 = copy.deepcopy(base)
        r = m.recompose_model(d2)
        for n in PARTS:
            own = n in OWN[st]
            t.check(getattr(r, n) is getattr(dvc, n) if own else (getattr(r, n) is getattr(dvc, n) or getattr(r, n) is getattr(d2, n)), f"stage {st}: recomposed model has another {n}")
        t.check(set(r.state_dict()) == set(base.state_dict()), f"stage {st}: recomposed model has other parts")

    ops = OPS if not freeze else ["train_a", "val"]
    core.explore(t, fresh, lambda model: ops, apply, lambda impl, ref: [[round(float(v), 9) for v in q.flatten()] for q in ref.p.parameters()] + [ref.nstep, len(impl[0].motion_entropy_bottleneck.updates)], inv, case["depth"])


def run_frozen(t, case):
    """Parts whose parameters are frozen beforehand never move."""
    st = case["st"] + 1
    for part in OWN[st]:
        if (st == 1 and part == "motion_estimator") or (st in (2, 3) and part.endswith("bottleneck")):
            continue  # nothing left to train for one of the optimisers
        run_hist(t, {"st": case["st"], "np": 2, "clip": 0.5, "sched": 0, "depth": 2}, freeze=part)


def run_seq(t, case):
    """All sub-sequences of stages starting with `first`, on the real parts, each trained for one step and recomposed."""
    from . import c03
    rest = list(range(case["first"] + 1, 5))
    for k in range(len(rest) + 1):
        for tail in itertools.combinations(rest, k):
            seq = (case["first"],) + tail
            torch.manual_seed(0)
            dvc = c03.make(seed=1, gain=1.0)
            dvc.train()
            keys = list(dvc.state_dict())
            x = video(5, n=3, b=1, s=(32, 32)).float()
            for s in seq:
                st = s + 1
                np_ = 2 if st == 5 else 1
                before = {k: v.clone() for k, v in dvc.state_dict().items()}
                m = make(dvc, st, np_, 1.0, 0, double=False)
                m.train()
                ok, _ = t.attempt(f"real stage {st} after {seq}", m.training_step, x.clone(), 0)
                if not ok:
                    return
                dvc = m.recompose_model(dvc)
                after = dvc.state_dict()
                t.check(list(after) == keys, f"stages {seq}: recomposed keys differ after stage {st}")
                params = {n for n, q in dvc.named_parameters()}
                for n in keys:
                    own = n.split(".")[0] in OWN[st]
                    moved = not torch.equal(before[n], after[n])
                    if n in params:
                        t.check(moved <= own, f"stages {seq}: stage {st} changed {n}, which it does not train")
                for part in OWN[st]:
                    t.check(any(not torch.equal(before[n], after[n]) for n in keys if n.startswith(part + ".")), f"stages {seq}: stage {st} does not train {part}")
                    if part.endswith("bottleneck"):
                        t.check(not torch.equal(before[part + ".quantiles"], after[part + ".quantiles"]), f"stages {seq}: stage {st} does not train the quantiles of {part}")
                t.step()
                t.state(seq, st)
            dvc.eval()
            dvc.update(force=True)
            with torch.no_grad():
                ok, c = t.attempt(f"compress after stages {seq}", dvc.compress, x[:, 0], x[:, 1])
                if ok:
                    t.attempt(f"decompress after stages {seq}", dvc.decompress, x[:, 0], c)
            t.trace()


def run_reject(t, case):
    from . import fakelightning as fl
    mod = fl.project("deep_video_compression", "dvc_module")
    ut = fl.project("deep_video_compression", "_utils")
    make(toy(), 1, 1, 1.0, 0)
    for bad in ("", "1", "6_total", "total", "1_motion_estimation ", "4_total"):
        t.must_raise(f"training stage {bad!r}", ValueError, mod.DvcModule, toy(), bad, "verif-toy", 3)
        t.state("stage", bad)
    # an update reports a change when any table of the stage changed, for all outcomes of the tables and both forms
    for st, a, b, force in itertools.product((2, 3, 4, 5), (False, True), (False, True), (False, True)):
        dvc = toy(st)
        m = make(dvc, st, 1, 1.0, 0)
        dvc.motion_entropy_bottleneck.changed, dvc.residual_entropy_bottleneck.changed = a, b
        ok, r = t.attempt(f"stage {st} update with tables {a}, {b}", m.update, force=force)
        if ok:
            t.check(bool(r) == (a or (b and st >= 4)), f"stage {st}: update reports {r} when the tables report {a} and {b}")
            used = [dvc.motion_entropy_bottleneck] + ([dvc.residual_entropy_bottleneck] if st >= 4 else [])
            t.check(all(q.updates[-1:] == [force] for q in used), f"stage {st}: update(force={force}) reaches the tables as {[q.updates for q in used]}")
        t.state("update", st, a, b, force)
    for bad in ("", "mse", "MS-SSIM"):
        t.must_raise(f"distortion {bad!r}", ValueError, mod.DvcModule, toy(), STAGES[0], "verif-toy", 3, distortion_type=bad)
        t.state("dist", bad)
    for cls in (ut.DvcStage2, ut.DvcStage3, ut.DvcStage4and5):
        t.must_raise(f"{cls.__name__} without entropy function", ValueError, cls, toy(), 1, ut.LossFunctions(lambda a, b: 0, None))
        t.state("entropy", cls.__name__)


def run_case(t, case):
    torch.set_num_threads(1)
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
