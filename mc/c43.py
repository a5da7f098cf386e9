"""C43: storing, restoring and copying models at every point of their history."""
import contextlib
import copy
import io
import itertools
import pickle
import sys

import torch

from . import core, nets

PID = "C43"
ASSUMPTIONS = ["small channel counts, CPU, one thread; the restored model is newly built with the same constructor arguments, then given the freezes and the train/eval mode of the original (these are not part of a state dictionary)",
               "floating-point results are compared up to 1e-5, integers and strings exactly"]
PICKLED = ("pickle", "file")  # compressai's attention block (ELIC), parametrised modules and the discriminator's levels cannot be pickled whole
KINDS = ["state", "state_file", "deepcopy", "pickle", "file", "state_twice"]


def bounds(tier):
    return (f"{len(SUBJECTS)} models and layers; every history of at most {3 if tier == 'quick' else 4} operations (training step, evaluation pass, table update, freezing, coding, mode change) x "
            f"{len(KINDS)} ways to store/restore/copy at its end (each history of two or more operations with a part of them, rotating) x the operations that follow on copy and original (every one after histories of at most one); "
            "every missing, additional and misshapen entry of the state")


def grab(x):
    """nested results -> list of comparable leaves"""
    if torch.is_tensor(x):
        return [x.detach().clone()]
    if isinstance(x, dict):
        return [l for k in sorted(x, key=str) for l in [str(k)] + grab(x[k])]
    if isinstance(x, (list, tuple)):
        return [len(x)] + [l for v in x for l in grab(v)]
    if hasattr(x, "__dataclass_fields__"):
        return [l for k in x.__dataclass_fields__ for l in [k] + grab(getattr(x, k))]
    return [x]


def same(a, b):
    if len(a) != len(b):
        return False
    for u, v in zip(a, b):
        if torch.is_tensor(u) != torch.is_tensor(v):
            return False
        if torch.is_tensor(u):
            if u.shape != v.shape or u.dtype != v.dtype:
                return False
            if u.is_floating_point():
                if not torch.allclose(u, v, rtol=1e-5, atol=1e-6, equal_nan=True):
                    return False
            elif not torch.equal(u, v):
                return False
        elif isinstance(u, float) and isinstance(v, float):
            if abs(u - v) > 1e-5 * (1 + abs(u)):
                return False
        elif u != v:
            return False
    return True


def state(m):
    return grab({k: v for k, v in m.state_dict().items()})


def exact(a, b):
    return len(a) == len(b) and all(type(u) is type(v) and (equal(u, v) if torch.is_tensor(u) else u == v) for u, v in zip(a, b))


def equal(u, v):
    if u.dtype != v.dtype or u.shape != v.shape:
        return False
    return torch.equal(u, v) or (u.is_floating_point() and torch.equal(torch.isnan(u), torch.isnan(v)) and torch.equal(torch.nan_to_num(u), torch.nan_to_num(v)))


def flags(m):
    return [(n, s.training) for n, s in m.named_modules()] + [(n, p.requires_grad) for n, p in m.named_parameters()]


def sgd(m, loss, lr=0.01):
    for p in m.parameters():
        p.grad = None
    if loss.requires_grad:
        loss.backward()
    with torch.no_grad():
        for p in m.parameters():
            if p.requires_grad and p.grad is not None:
                p -= lr * p.grad.clamp(-1, 1)
    for p in m.parameters():
        p.grad = None


def energy(*ts):
    return sum((t.float() * torch.linspace(-0.9, 1.1, t.numel()).view(t.shape)).mean() + (t.float() ** 2).mean() * 0.1 for t in ts if torch.is_tensor(t) and t.numel())


class Subject:
    """build(seed), operations, and what can be seen from outside"""
    ops = ["train", "eval"]
    carry = ()  # operations whose effect is not part of the state dictionary
    skip = ()  # ways that the dependency does not support

    def build(self, seed):
        raise NotImplementedError

    def run(self, m, x):
        return m(x)

    def data(self, k):
        raise NotImplementedError

    def do(self, m, op, k=0):
        torch.manual_seed(100 + k)
        if op == "train":
            m.train()
            self.before_train(m)
            out = [o for o in grab(self.run(m, self.data(k))) if torch.is_tensor(o)]
            m.train()
            torch.manual_seed(100 + k)
            sgd(m, self.loss(m, k))
            return out
        if op == "eval":
            m.eval()
            with torch.no_grad():
                return grab(self.run(m, self.data(k)))
        if op == "mode":
            m.train()
            return []
        return self.extra(m, op, k)

    def before_train(self, m):
        pass

    def loss(self, m, k):
        return energy(*tensors(self.run(m, self.data(k))))

    def observe(self, m):
        return self.do(m, "eval", 7)


def tensors(x):
    if torch.is_tensor(x):
        return [x] if x.is_floating_point() and x.requires_grad else []
    if isinstance(x, dict):
        return [l for k in sorted(x, key=str) for l in tensors(x[k])]
    if isinstance(x, (list, tuple)):
        return [l for v in x for l in tensors(v)]
    if hasattr(x, "__dataclass_fields__"):
        return [l for k in x.__dataclass_fields__ for l in tensors(getattr(x, k))]
    return []


class Hific(Subject):
    ops = ["train", "eval", "update", "code", "freeze_enc", "freeze_bot", "dev"]
    carry = ("freeze_enc", "freeze_bot", "dev")

    def __init__(self, fe, fb):
        self.fe, self.fb = fe, fb

    def build(self, seed):
        from . import c02
        m = c02.build(self.fe, self.fb)
        torch.manual_seed(seed)
        for p in m.hyper_analysis.parameters():
            with torch.no_grad():
                p.add_(torch.randn(p.shape) * 0.05)
        m = c02.slim(m)
        if seed:
            nets.trained_medians_(m.hyper_bottleneck, seed)
            with torch.no_grad():
                for q in (m.encoder, m.decoder):
                    for p in q.parameters():
                        p.mul_(0.5)
        return m

    def data(self, k):
        return nets.image(1, 1, 64, 64, seed=k)

    def run(self, m, x):
        m.update_tensor_devices("forward")
        return m(x)

    def extra(self, m, op, k):
        if op == "update":
            m.update()
        elif op == "freeze_enc":
            m._freeze_encoder() if hasattr(m, "_freeze_encoder") else None
        elif op == "freeze_bot":
            m._freeze_bottleneck() if hasattr(m, "_freeze_bottleneck") else None
        elif op == "dev":
            m.update_tensor_devices("compress")
        elif op == "code":
            m.eval()
            m.update()
            m.update_tensor_devices("compress")
            with torch.no_grad():
                c = m.compress(self.data(k))
                return grab(c) + grab(m.decompress(c))
        return []

    def observe(self, m):
        got = self.do(m, "eval", 7)
        if m.hyper_bottleneck._quantized_cdf.numel():
            m.update_tensor_devices("compress")
            with torch.no_grad():
                c = m.compress(self.data(8))
                got = got + grab(c) + grab(m.decompress(c))
        return got


class Dvc(Subject):
    ops = ["train", "eval", "update", "code"]

    def build(self, seed):
        from . import c03
        return c03.make(seed=seed, ready=False)

    def data(self, k):
        return nets.image(1, 3, 32, 48, seed=k), nets.image(1, 3, 32, 48, seed=k + 3)

    def run(self, m, x):
        return m(*x)

    def extra(self, m, op, k):
        if op == "update":
            m.update()
            return []
        m.eval()
        m.update()
        return self.code(m, k)

    def code(self, m, k):
        a, b = self.data(k)
        with torch.no_grad():
            c = m.compress(a, b)
            return grab(c) + grab(m.decompress(a, c))

    def observe(self, m):
        got = self.do(m, "eval", 7)
        if m.motion_entropy_bottleneck._quantized_cdf.numel():
            got = got + self.code(m, 8)
        return got


class Vqvae(Subject):
    ops = ["train", "eval", "mode", "hits", "reset"]

    def __init__(self, cfg, fe=False, fb=False):
        self.cfg, self.fe, self.fb = cfg, fe, fb

    def build(self, seed):
        from . import c11
        m = c11.make(self.cfg, fe=self.fe, fb=self.fb, dropout=0.1)
        return scramble(m, seed)

    def data(self, k):
        from . import c11
        return c11.img(1, 8, 8, s=k)

    def vq(self, m):
        return [q for q in m.modules() if hasattr(q, "reset_hits")]

    def extra(self, m, op, k):
        for q in self.vq(m):
            (q.update_metrics if op == "hits" else q.reset_hits)()
        return []


class Projector(Vqvae):
    ops = ["eval", "mode", "hits", "reset"]

    def build(self, seed):
        from neuralcompression.models import VqVaeProjector
        return VqVaeProjector(super().build(seed))


class Vq(Vqvae):
    def __init__(self):
        pass

    def build(self, seed):
        from neuralcompression.layers import VQBottleneck
        torch.manual_seed(seed)
        return VQBottleneck(5, 2, "normal")

    def data(self, k):
        from neuralcompression import VqVaeAutoencoderOutput
        i = torch.arange(24).float()
        return VqVaeAutoencoderOutput(latent=((i * 0.83 + k * 0.31) % 2.9 - 1.3).view(2, 2, 2, 3))


class Wrapped(Vq):
    def build(self, seed):
        from neuralcompression.layers import NormalizeLatent, ProjectLatent, VQBottleneck
        torch.manual_seed(seed)
        return ProjectLatent(2, 3, NormalizeLatent(VQBottleneck(5, 3)))


class Plain(Subject):
    ops = ["train", "eval", "mode"]

    def __init__(self, make, shape, skip=()):
        self.make, self.shape, self.skip = make, shape, skip

    def build(self, seed):
        torch.manual_seed(seed)
        return scramble(self.make(), seed)

    def data(self, k):
        n = 1
        for s in self.shape:
            n *= s
        return ((torch.arange(n).float() * 0.73 + k).sin() * 0.9).view(self.shape)


def scramble(m, seed):
    if seed:
        g = torch.Generator().manual_seed(seed)
        with torch.no_grad():
            for p in m.parameters():
                p.add_(torch.randn(p.shape, generator=g).to(p.dtype).abs() * 0.05)
    return m


class Disc(Plain):
    def __init__(self, norm, cond):
        self.norm, self.cond = norm, cond
        self.skip = PICKLED

    def build(self, seed):
        from . import c29
        return scramble(c29.build(2, 2, self.norm, self.cond), seed)

    def data(self, k):
        x = nets.image(2, 3, 16, 16, seed=k)
        return (x, nets.image(2, 2, 4, 4, seed=k + 1)) if self.cond else (x,)

    def run(self, m, x):
        return m(*x)


class Vct(Subject):
    ops = ["train", "eval", "update", "code"]

    def __init__(self, fam):
        self.fam = fam
        self.skip = PICKLED if fam == "elic" else ()

    def build(self, seed):
        from . import c08
        return c08.make(2, self.fam, seed=seed).train()

    def data(self, k):
        from . import c08
        return c08.modules()[4](c08.clip(1, 3, 32, 32, seed=k))

    def run(self, m, v):
        return list(m(v))

    def extra(self, m, op, k):
        m.eval()
        if op == "update":
            m.entropy_model.update()
            return []
        return self.code(m, k)

    def code(self, m, k):
        with torch.no_grad():
            v = self.data(k)
            *out, bits = m.compress_video(v)
            return grab(list(out)) + grab(bits)

    def observe(self, m):
        return self.do(m, "eval", 7) + self.code(m, 8)


def _gdn(inv):
    def f():
        from . import c18
        return c18.layer(inv, 3)
    return f


def _norm():
    from neuralcompression.layers import ChannelNorm2D
    return ChannelNorm2D(3)


def _xca():
    from neuralcompression.layers import XCA
    return XCA(8, num_heads=2)


def _transform(fam, side):
    def f():
        from . import c40
        return c40.make(fam, side).float().train()
    return f


class Synth(Plain):
    def run(self, m, x):
        return m(x, torch.Size((x.shape[0], x.shape[1], 3, 32, 16)))


SUBJECTS = {
    "hific": lambda: Hific(False, False), "hific frozen encoder": lambda: Hific(True, False), "hific frozen": lambda: Hific(True, True), "dvc": Dvc,
    "vqvae f2": lambda: Vqvae("f2"), "vqvae f4 frozen": lambda: Vqvae("f4", True, True), "projector": lambda: Projector("f2"),
    "vq": Vq, "projected vq": Wrapped, "gdn": lambda: Plain(_gdn(False), (2, 3, 4, 4)), "inverse gdn": lambda: Plain(_gdn(True), (2, 3, 4, 4)),
    "channel norm": lambda: Plain(_norm, (2, 3, 4, 4)), "xca": lambda: Plain(_xca, (2, 6, 8)),
    "vct gdn": lambda: Vct("gdn"), "vct elic": lambda: Vct("elic"),
    "elic analysis": lambda: Plain(_transform("elic", "analysis"), (1, 2, 3, 32, 16), PICKLED), "elic synthesis": lambda: Synth(_transform("elic", "synthesis"), (1, 2, 4, 2, 1), PICKLED),
}
for _n, _c in itertools.product(("identity", "spectral", "instance", "batch"), (0, 1)):
    SUBJECTS[f"{'conditional ' if _c else ''}discriminator {_n}"] = (lambda n=_n, c=_c: Disc(n, c))


def cases(tier):
    for name in SUBJECTS:
        heavy = name.startswith("vct")
        depth = (2 if heavy else 3) if tier == "quick" else (3 if heavy else 4)
        for first in [None] + SUBJECTS[name]().ops:
            yield {"kind": "history", "subject": name, "first": first, "depth": depth}
        yield {"kind": "refuse", "subject": name}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def transfer(s, m, kind, hist):
    if kind == "deepcopy":
        return copy.deepcopy(m)
    if kind == "pickle":
        return pickle.loads(pickle.dumps(m))
    if kind == "file":
        buf = io.BytesIO()
        torch.save(m, buf)
        buf.seek(0)
        return torch.load(buf)
    sd = m.state_dict()
    if kind in ("state_file", "state_twice"):
        buf = io.BytesIO()
        torch.save(sd, buf)
        buf.seek(0)
        sd = torch.load(buf)
    else:
        sd = {k: v.clone() for k, v in sd.items()}
    f = s.build(11)
    if kind == "state_twice":  # the receiving model has been used before
        for i, op in enumerate(("train", "eval")):
            if op in s.ops:
                s.do(f, op, 3 + i)
    f.load_state_dict(sd)
    for op in hist:
        if op in s.carry:
            s.do(f, op)
    for a, b in zip(m.modules(), f.modules()):
        b.training = a.training
    return f


def history(t, case):
    s = SUBJECTS[case["subject"]]()
    first, name = case["first"], case["subject"]
    hists = [()] if first is None else [(first,) + r for n in range(case["depth"]) for r in itertools.product(s.ops, repeat=n)]
    seen = set()
    for hist in hists:
        for ki, kind in enumerate(KINDS):
            if kind in s.skip:
                continue
            # on long histories rotate the kinds (every kind meets every operation as last and as second to last)
            if len(hist) > 1 and (hash_of(hist) + ki) % (2 if len(hist) == 2 else 6):
                continue
            what = f"{name} after {list(hist)}, {kind}"
            torch.manual_seed(1)
            m = s.build(0)
            try:
                for i, op in enumerate(hist):
                    s.do(m, op, i)
                    t.step()
            except Exception as e:  # noqa: BLE001
                t.fail(f"{name}: history {list(hist)} raised {type(e).__name__}: {e}")
                return
            before, fl = state(m), flags(m)
            ok, c = t.attempt(what, transfer, s, m, kind, hist)
            t.state(name, hist, kind)
            t.trace()
            if not ok:
                return
            if not t.check(exact(before, state(m)) and flags(m) == fl, f"{what}: the original changed"):
                return
            if not t.check(exact(before, state(c)), f"{what}: the state differs from the original's"):
                return
            t.check(flags(c) == fl, f"{what}: modes or trainable parameters differ from the original's")
            # use the copy only: the original must not notice
            ok, got = t.attempt(f"{what}: using the restored model", s.observe, c)
            if not ok:
                return
            t.check(exact(before, state(m)) and flags(m) == fl, f"{what}: using the copy changed the original")
            mid = state(c)
            ok, want = t.attempt(f"{what}: using the original", s.observe, m)
            if not ok:
                return
            t.check(exact(mid, state(c)), f"{what}: using the original changed the copy")
            if not t.check(same(got, want), f"{what}: results differ from the original's"):
                return
            t.check(same(mid, state(m)), f"{what}: after the same use the states differ")
            # every operation that may follow
            nxt = s.ops if len(hist) < 2 else [s.ops[(hash_of(hist) + ki) % len(s.ops)], "train" if "train" in s.ops else "eval"]
            for op in nxt:
                sm = state(m)
                ok, a = t.attempt(f"{what}: {op} on the restored model", s.do, c, op, 5)
                if not ok:
                    return
                t.check(exact(sm, state(m)), f"{what}: {op} on the copy changed the original")
                sc = state(c)
                ok, b = t.attempt(f"{what}: {op} on the original", s.do, m, op, 5)
                if not ok:
                    return
                t.check(exact(sc, state(c)), f"{what}: {op} on the original changed the copy")
                t.check(same(a, b), f"{what}: {op} gives other results than on the original")
                t.check(same(state(c), state(m)), f"{what}: {op} leaves another state than on the original")
                t.check(flags(c) == flags(m), f"{what}: {op} leaves other modes or trainable parameters than on the original")
                t.step()
            if len(t.problems) > 4:
                return


def hash_of(h):
    return sum((i + 1) * (sum(map(ord, x)) % 97) for i, x in enumerate(h))


def refuse(t, case):
    """entries missing from, added to or of another shape than the model's are refused"""
    s = SUBJECTS[case["subject"]]()
    m = s.build(0)
    par = dict(m.named_parameters())
    for k in sorted(m.state_dict()):
        sd = m.state_dict()
        del sd[k]
        t.must_raise(f"{case['subject']}: state without {k}", Exception, s.build(11).load_state_dict, sd)
        sd = m.state_dict()
        sd[k + "_"] = torch.zeros(2)
        t.must_raise(f"{case['subject']}: state with an additional {k}_", Exception, s.build(11).load_state_dict, sd)
        if k in par:
            sd = m.state_dict()
            sd[k] = torch.cat([sd[k], sd[k][:1]])
            t.must_raise(f"{case['subject']}: {k} with one more row", Exception, s.build(11).load_state_dict, sd)
        t.state(case["subject"], k)
        t.trace()


def run_case(t, case):
    torch.set_num_threads(1)
    with quiet():
        (history if case["kind"] == "history" else refuse)(t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
