"""C25: flop counts against closed forms over a layer/shape lattice, and all short histories of count calls."""
import copy
import itertools
import math
import sys
import warnings
import logging
import torch
from torch import nn
from . import core

PID = "C25"
ASSUMPTIONS = ["a multiply-accumulate is one flop and bias additions are free (documented convention of the counter)", "tracing runs the forward pass once: its own effects (running statistics in training mode, random numbers) are those of one forward pass"]
ONE = ["abs", "add", "div", "mul", "neg", "rsub", "sign", "sub"]
EST = ["erfc", "exp", "log", "log10", "log2", "pow", "reciprocal", "rsqrt", "sigmoid", "softplus", "sqrt", "tanh"]


def bounds(tier):
    return "linear, 1-3d convolutions and transposed convolutions over a full lattice of channels, kernels, strides, paddings, dilations, groups, sizes; all elementwise operators (plain, in place, broadcast, repeated) with and without estimates; all histories of <= %d count calls over 7 (module, option) pairs" % (3 if tier == "quick" else 4)


def cases(tier):
    yield {"kind": "linear"}
    for tr in (False, True):
        for nd in (1, 2, 3):
            yield {"kind": "conv", "tr": tr, "nd": nd, "big": tier != "quick"}
    for op in ONE + EST:
        yield {"kind": "elem", "op": op}
    yield {"kind": "ignored"}
    yield {"kind": "compose"}
    yield {"kind": "effects"}
    yield {"kind": "library"}
    for first in range(7):
        yield {"kind": "hist", "first": first, "depth": 3 if tier == "quick" else 4}


def count(m, inputs, **kw):
    from neuralcompression.functional import count_flops
    logging.disable(logging.CRITICAL)
    return count_flops(m, inputs, **kw)


def norm(r):
    return float(r[0]), {k: float(v) for k, v in r[1].items()}, dict(r[2])


def expect(t, name, m, inputs, total, unsupported=None, **kw):
    ok, r = t.attempt(name, count, m, inputs, **kw)
    if not ok:
        return None
    t.state(name)
    t.trace()
    tot, by, un = norm(r)
    t.check(tot == total, f"{name}: counted {tot}, closed form {total} ({by})")
    t.check(abs(sum(by.values()) - tot) < 1e-6, f"{name}: the breakdown {by} does not sum to {tot}")
    t.check(un == (unsupported or {}), f"{name}: unsupported operations reported as {un}, expected {unsupported or {}}")
    return r


def run_linear(t, case):
    for i, o, bias in itertools.product((1, 2, 5), (1, 3, 4), (False, True)):
        for shape in ((i,), (1, i), (3, i), (2, 3, i), (2, 1, 2, i)):
            n = math.prod(shape[:-1])
            for seq in (tuple, list):
                expect(t, f"Linear({i},{o},bias={bias}) on {shape} {seq.__name__}", nn.Linear(i, o, bias=bias), seq([torch.ones(shape)]), n * i * o)

    class MM(nn.Module):
        def __init__(self, f):
            super().__init__()
            self.f = f

        def forward(self, a, b):
            return self.f(a, b)
    for a, b, c, n in itertools.product((1, 2, 3), (1, 4), (1, 5), (1, 2)):
        expect(t, f"matmul {a}x{b}x{c}", MM(torch.matmul), (torch.ones(a, b), torch.ones(b, c)), a * b * c)
        expect(t, f"bmm {n}x{a}x{b}x{c}", MM(torch.bmm), (torch.ones(n, a, b), torch.ones(n, b, c)), n * a * b * c)


def run_conv(t, case):
    nd = case["nd"]
    C = {(False, 1): nn.Conv1d, (False, 2): nn.Conv2d, (False, 3): nn.Conv3d, (True, 1): nn.ConvTranspose1d, (True, 2): nn.ConvTranspose2d, (True, 3): nn.ConvTranspose3d}[(case["tr"], nd)]
    ks = (1, 2, 3) if nd < 3 else (1, 2)
    sizes = (3, 4, 6) if case["big"] or nd < 3 else (3, 4)
    for (ci, co, g), k, s, p, d, bias, sz, b in itertools.product(((1, 1, 1), (2, 4, 1), (3, 2, 1), (4, 2, 2), (2, 2, 2)), ks, (1, 2), (0, 1), (1, 2), (False, True), sizes, (1, 2)):
        if bias and (s, p, d) != (1, 0, 1):
            continue
        dims = (sz,) + (4,) * (nd - 1)
        x = torch.ones((b, ci) + dims)
        m = C(ci, co, k, stride=s, padding=p, dilation=d, groups=g, bias=bias)
        eff = d * (k - 1) + 1
        if case["tr"]:
            out = [(n - 1) * s - 2 * p + eff for n in dims]
            if min(out) < 1:
                continue
            total = b * math.prod(dims) * ci * (co // g) * k ** nd
        else:
            out = [(n + 2 * p - eff) // s + 1 for n in dims]
            if min(n + 2 * p - eff for n in dims) < 0:
                continue
            total = b * math.prod(out) * co * (ci // g) * k ** nd
        expect(t, f"{C.__name__}({ci},{co},k={k},s={s},p={p},d={d},g={g},bias={bias}) on {tuple(x.shape)}", m, (x,), total)
    t.sample(case)


class Elem(nn.Module):
    def __init__(self, op, times, inplace=False, other=None):
        super().__init__()
        self.op, self.times, self.inplace, self.other = op, times, inplace, other

    def forward(self, x):
        y = x.clone() if self.inplace else x
        for _ in range(self.times):
            f = getattr(torch if not self.inplace else y, self.op + ("_" if self.inplace else ""), None) or getattr(torch.nn.functional, self.op)
            args = () if self.other is None else (self.other,)
            y = f(*args) if self.inplace else f(y, *args)
        return y


def run_elem(t, case):
    op = case["op"]
    binary = op in ("add", "div", "mul", "rsub", "sub")
    inplace_ok = op not in ("rsub", "softplus")
    for shape in ((1,), (3,), (2, 3), (1, 3), (2, 1, 4), (2, 3, 4, 5)):
        n = math.prod(shape)
        others = [None]
        if binary:
            others = [torch.full(shape, 2.0), 2.0, torch.full((1,), 2.0), torch.full((3,) + (1,) * len(shape), 2.0)]
        if op == "pow":
            others = [2.0, torch.full(shape, 2.0)]
        for other in others:
            for times in (1, 2, 3):
                for inplace in ((False, True) if inplace_ok else (False,)):
                    size, tot = shape, 0
                    bshape = tuple(other.shape) if isinstance(other, torch.Tensor) else ()
                    if inplace and bshape and torch.broadcast_shapes(shape, bshape) != shape:
                        continue
                    for _ in range(times):
                        size = torch.broadcast_shapes(size, bshape)
                        tot += math.prod(size)
                    m = Elem(op, times, inplace, other)
                    nm = f"aten::{op}{'_' if inplace else ''}"
                    unsup = {nm: times}
                    extra = {"aten::clone": 1} if inplace else {}
                    name = f"{op}{'_' if inplace else ''} x{times} on {shape} with {bshape}"
                    known = op in ONE
                    ok, r = t.attempt(name, count, m, (torch.full(shape, 0.5),))
                    if not ok:
                        continue
                    t.state(name)
                    tot0, by, un = norm(r)
                    un.pop("aten::clone", None)
                    t.check(tot0 == (tot if known else 0), f"{name}: counted {tot0}, expected {tot if known else 0}")
                    t.check(un == ({} if known else unsup), f"{name}: unsupported reported {un}, expected {({} if known else unsup)}")
                    ok, r = t.attempt(name + " with estimates", count, m, [torch.full(shape, 0.5)], use_single_flop_estimates=True)
                    tot0, by, un = norm(r)
                    un.pop("aten::clone", None)
                    t.check(tot0 == tot and un == {}, f"{name} with estimates: counted {tot0} (unsupported {un}), expected {tot}")
                    # an override replaces whichever default there is
                    for est in (False, True):
                        if op == "rsub" and bshape:
                            break  # torch traces rsub with a tensor as sub
                        ok, r = t.attempt(name + " overridden", count, m, (torch.full(shape, 0.5),), counter_overrides={nm: lambda i, o: 1000}, use_single_flop_estimates=est)
                        tot0, by, un = norm(r)
                        un.pop("aten::clone", None)
                        t.check(tot0 == 1000 * times and un == {}, f"{name}: override gives {tot0}, expected {1000 * times}")
                    t.trace(4)
    t.sample(case)


class Fn(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def forward(self, *a):
        return self.f(*a)


def run_ignored(t, case):
    for n in (1, 2, 5):
        x = torch.ones(n, 3)
        expect(t, f"empty_like {n}", Fn(lambda a: torch.empty_like(a)), (x,), 0)
        expect(t, f"view {n}", Fn(lambda a: a.view(-1)), (x,), 0)
        expect(t, f"relu {n}", Fn(lambda a: torch.relu(a)), (x,), 0)
        for k in (1, 2, 3):
            expect(t, f"sort x{k}", Fn(lambda a, k=k: sort_(a, k)), (x,), 0, {"aten::sort": k})
            expect(t, f"cumsum+add x{k}", Fn(lambda a, k=k: sum_(a, k)), (x,), 3 * n * k, {"aten::cumsum": k})


def sort_(a, k):
    for _ in range(k):
        a = torch.sort(a)[0]
    return a


def sum_(a, k):
    for _ in range(k):
        a = torch.cumsum(a, 0) + a
    return a


def run_compose(t, case):
    """A sequence counts as the sum of its parts, whatever the order or nesting."""
    def parts():
        return {"c1": (nn.Conv2d(3, 3, 3, padding=1), 3), "c2": (nn.Conv2d(3, 3, 1), 3), "t1": (nn.ConvTranspose2d(3, 3, 3, padding=1), 3), "relu": (nn.ReLU(), 3), "neg": (Fn(torch.neg), 3), "sig": (nn.Sigmoid(), 3), "bn": (nn.BatchNorm2d(3).eval(), 3)}
    P = parts()
    x = torch.ones(2, 3, 5, 4)
    single = {k: norm(count(m, (x,))) for k, (m, _) in P.items()}
    est = {k: norm(count(m, (x,), use_single_flop_estimates=True)) for k, (m, _) in P.items()}
    for r in (2, 3):
        for combo in itertools.product(P, repeat=r):
            if r == 3 and len(set(combo)) == 3 and combo != tuple(sorted(combo)):
                continue
            for nested in (False, True):
                ms = [copy.deepcopy(P[k][0]) for k in combo]
                m = nn.Sequential(ms[0], nn.Sequential(*ms[1:])) if nested else nn.Sequential(*ms)
                m.eval()
                for tab, kw in ((single, {}), (est, {"use_single_flop_estimates": True})):
                    name = f"Sequential{combo} nested={nested} {kw}"
                    ok, got = t.attempt(name, count, m, (x,), **kw)
                    if not ok:
                        continue
                    got = norm(got)
                    t.state(name)
                    t.trace()
                    t.check(got[0] == sum(tab[k][0] for k in combo), f"{name}: {got[0]} is not the sum of the parts {[tab[k][0] for k in combo]}")
                    by, un = {}, {}
                    for k in combo:
                        for q, v in tab[k][1].items():
                            by[q] = by.get(q, 0) + v
                        for q, v in tab[k][2].items():
                            un[q] = un.get(q, 0) + v
                    t.check({k: v for k, v in got[1].items() if v} == {k: v for k, v in by.items() if v} and got[2] == un, f"{name}: breakdown {got[1:]} expected {(by, un)}")
    # the same module used twice counts twice
    c = nn.Conv2d(3, 3, 3, padding=1)
    expect(t, "shared module", nn.Sequential(c, c), (x,), 2 * single["c1"][0])
    # several inputs, non-tensor inputs
    expect(t, "two inputs", Fn(lambda a, b: a * b + a), (torch.ones(2, 3), torch.ones(3)), 12)


def run_effects(t, case):
    def mk(kind):
        torch.manual_seed(0)
        return {"conv": lambda: nn.Sequential(nn.Conv2d(2, 2, 3), nn.ReLU()), "bn": lambda: nn.Sequential(nn.Conv2d(2, 2, 1), nn.BatchNorm2d(2)), "drop": lambda: nn.Sequential(nn.Dropout(0.5), nn.Conv2d(2, 2, 1)), "nest": lambda: nn.Sequential(nn.Sequential(nn.Conv2d(2, 2, 1), nn.Sigmoid()), nn.Conv2d(2, 2, 1))}[kind]()
    x = torch.arange(32.0).reshape(1, 2, 4, 4)
    for kind in ("conv", "bn", "drop", "nest"):
        for modes in itertools.product((True, False), repeat=2):
            for frozen in (False, True):
                for kw in ({}, {"use_single_flop_estimates": True}, {"counter_overrides": {"aten::conv": lambda i, o: 5}}):
                    for grad in (False, True):
                        m, ref = mk(kind), mk(kind)
                        for q in (m, ref):
                            q.train(modes[0])
                            q[0].train(modes[1])
                            if frozen:
                                q[-1 if kind != "conv" else 0].requires_grad_(False)
                        xin = x.clone().requires_grad_(grad)
                        name = f"{kind} modes={modes} frozen={frozen} {list(kw)} grad={grad}"
                        torch.manual_seed(3)
                        if kind != "drop":
                            with torch.no_grad():
                                ref(x)
                        ok, _ = t.attempt(name, count, m, (xin,), **kw)
                        t.state(name)
                        t.trace()
                        t.check([q.training for q in m.modules()] == [q.training for q in ref.modules()], f"{name}: training mode changed")
                        sd, sr = m.state_dict(), ref.state_dict()
                        t.check(list(sd) == list(sr) and all(torch.equal(sd[k], sr[k]) for k in sd), f"{name}: parameters or buffers differ from one forward pass")
                        t.check([p.requires_grad for p in m.parameters()] == [p.requires_grad for p in ref.parameters()] and all(p.grad is None for p in m.parameters()), f"{name}: requires_grad or gradients changed")
                        t.check(all(not q._forward_hooks and not q._forward_pre_hooks and not q._backward_hooks for q in m.modules()), f"{name}: hooks left behind")
                        t.check(torch.equal(xin.detach(), x) and xin.grad is None and xin.requires_grad == grad, f"{name}: the input changed")
                        m.eval(), ref.eval()
                        t.check(torch.equal(m(x), ref(x)) and m(x.clone().requires_grad_()).requires_grad, f"{name}: outputs changed")


def run_library(t, case):
    """Convolution flops of library networks against forward hooks on their layers."""
    from neuralcompression.models import UnetDiscriminator
    from neuralcompression.models.deep_video_compression import DVCCompressionEncoder
    for cls, kw in ((DVCCompressionEncoder, dict(in_channels=2, filter_channels=3, out_channels=4)), (DVCCompressionEncoder, dict(in_channels=1, filter_channels=2, out_channels=2, kernel_size=5, num_conv_layers=2, use_gdn=False)),
                    (UnetDiscriminator, dict(output_channels=2, output_downsampling_factor=4, chans=[3, 4, 4, 4])), (UnetDiscriminator, dict(output_channels=3, output_downsampling_factor=1, chans=[3, 2, 4, 4]))):
        m = cls(**kw).eval()
        cin = kw.get("in_channels") or kw["chans"][0]
        for h, w in ((16, 16), (32, 16), (48, 32)):
            x = torch.ones(1, cin, h, w)
            tot = [0]

            def hook(q, i, o):
                n = i[0] if isinstance(q, nn.ConvTranspose2d) else o
                tot[0] += n.numel() // n.shape[1] * q.weight.numel()
            hs = [q.register_forward_hook(hook) for q in m.modules() if isinstance(q, (nn.Conv2d, nn.ConvTranspose2d))]
            m(x)
            for q in hs:
                q.remove()
            ok, r = t.attempt(f"{cls.__name__} {h}x{w}", count, m, (x,))
            if ok:
                t.state(cls.__name__, str(kw), h, w)
                conv = sum(v for k, v in norm(r)[1].items() if "conv" in k)
                # functional convolutions (normalisation layers) come on top
                t.check(conv >= tot[0] and norm(r)[0] >= conv, f"{cls.__name__} {h}x{w}: counted {conv} convolution flops, layers perform at least {tot[0]}")


def run_hist(t, case):
    A = nn.Sequential(nn.Linear(3, 4), nn.Sigmoid(), Fn(torch.neg))
    B = Fn(lambda x: torch.exp(x) + x * 2)
    x = torch.ones(2, 3)
    calls = [(A, {}), (A, {"use_single_flop_estimates": True}), (A, {"counter_overrides": {"aten::sigmoid": lambda i, o: 7}}), (A, {"counter_overrides": {"aten::neg": lambda i, o: 11, "aten::linear": lambda i, o: 13}}),
             (B, {}), (B, {"use_single_flop_estimates": True}), (B, {"counter_overrides": {"aten::exp": lambda i, o: 5}, "use_single_flop_estimates": True})]
    want = [(24 + 8, {"aten::sigmoid": 1}), (24 + 8 + 8, {}), (24 + 7 + 8, {}), (13 + 11, {"aten::sigmoid": 1}), (12, {"aten::exp": 1}), (18, {}), (17, {})]
    for n in range(0, case["depth"]):
        for rest in itertools.product(range(7), repeat=n):
            seq = (case["first"],) + rest
            for j, c in enumerate(seq):
                if j < len(seq) - 1 and n > 0 and j > 0:
                    pass
                m, kw = calls[c]
                kw = dict(kw)
                ov = kw.get("counter_overrides")
                keys = None if ov is None else sorted(ov)
                ok, r = t.attempt(f"history {seq[:j+1]}", count, m, (x,), **kw)
                if not ok:
                    return
                tot, by, un = norm(r)
                t.check((tot, un) == (float(want[c][0]), want[c][1]), f"history {seq[:j+1]}: counted {(tot, un)}, alone {want[c]}")
                t.check(ov is None or sorted(ov) == keys, f"history {seq[:j+1]}: the caller's overrides were modified")
            t.state(seq)
            t.trace()


def run_case(t, case):
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
