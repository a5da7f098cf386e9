"""C32: reported sizes against real pickle files, and information content against its definition, over complete small domains."""
import itertools
import math
import os
import pickle
import shutil
import sys
import tempfile
import torch
from . import core

PID = "C32"
ASSUMPTIONS = ["objects are picklable; sizes are those of the interpreter's default pickle protocol"]
PROBS = [1.0, 0.5, 0.3, 2.0 ** -20, 1e-30]
BASES = [2.0, math.e, 10.0, 3.0, 256.0, 1.5]


def bounds(tier):
    return ("sizes: all atoms (boundary integers, strings and byte strings around the pickle length limits, tensors), all pairs and nestings of depth <= %d, shared references, compressed outputs of every latent size up to 3x3; "
            "information: all probability vectors of length <= %d over 5 values x 6 bases and all powers of two of both formats x 3 reductions, all shapes of rank 1..5 with sides 1..3 x layouts x 2 dtypes" % (2 if tier == "quick" else 3, 4 if tier == "quick" else 5))


def atoms():
    out = [None, True, False, 0, 1, -1, 0.5, float("inf"), 1 + 2j, ..., "", "a", "\u00e9", "\U0001f600"]
    out += [s * (2 ** k) + d for k in (8, 16, 31, 63) for s in (1, -1) for d in (-1, 0)]
    out += ["x" * n for n in (255, 256, 65536)] + [bytes(n) for n in (0, 1, 254, 255, 256, 257, 65535, 65536, 70000)] + [bytearray(3)]
    out += [torch.Size((2, 3)), (), [], {}, set(), frozenset((1, 2)), slice(1, 2), range(3), torch.float32]
    return out


def cases(tier):
    q = tier == "quick"
    n = len(atoms())
    for c in core.chunks(list(range(n)), 8):
        yield {"kind": "size", "idx": list(c), "depth": 2 if q else 3}
    yield {"kind": "tensors"}
    yield {"kind": "outputs"}
    for a in range(len(PROBS)):
        yield {"kind": "info", "a": a, "n": 4 if q else 5}
    for rank in range(1, 6):
        yield {"kind": "shapes", "rank": rank}
    yield {"kind": "reject"}


def on_disk(obj, d):
    p = os.path.join(d, "obj.pkl")
    with open(p, "wb") as f:
        pickle.dump(obj, f)
    return os.path.getsize(p)


def size_check(t, obj, what, d=None):
    from neuralcompression.metrics import pickle_size_of
    want = len(pickle.dumps(obj))
    ok, n = t.attempt(what, pickle_size_of, obj)
    if ok:
        t.check(type(n) is int and n == want, f"{what}: reported {n} bytes, the pickle has {want}")
        t.check(pickle_size_of(obj) == n, f"{what}: the second report differs")
        if d is not None:
            t.check(on_disk(obj, d) == n, f"{what}: reported {n} bytes, the file has {on_disk(obj, d)}")
    t.trace()
    t.state(what)
    return n if ok else None


def run_size(t, case):
    at = atoms()
    d = tempfile.mkdtemp(prefix="c32_")
    try:
        for i in case["idx"]:
            a = at[i]
            size_check(t, a, f"atom {i}", d)
            for j, b in enumerate(at):
                objs = {"tuple": (a, b), "list": [a, b], "dict": {"k": a, "l": b}, "shared": [a, a, b, b]}
                if case["depth"] > 2 or (i + j) % 3 == 0:
                    objs["nested"] = {"x": [a, (b, [a])], "y": (b,)}
                for k, o in objs.items():
                    size_check(t, o, f"{k} of atoms {i}, {j}", d if j % 7 == 0 else None)
                    t.step()
            if case["depth"] > 2:
                for b, c in itertools.product(at[::3], repeat=2):
                    size_check(t, ([a, b], {"c": c, "a": (a, c)}), f"depth 3 of atom {i} {b!r:.20} {c!r:.20}")
    finally:
        shutil.rmtree(d)


def run_tensors(t, case):
    d = tempfile.mkdtemp(prefix="c32_")
    try:
        for dt in (torch.float32, torch.float64, torch.uint8, torch.int64, torch.bool, torch.float16):
            for shape in itertools.product((1, 2, 5), repeat=2):
                x = torch.zeros(shape, dtype=dt)
                size_check(t, x, f"tensor {dt} {shape}", d)
                size_check(t, [x, x], f"tensor {dt} {shape} twice", d)
                size_check(t, x[:, :1], f"view {dt} {shape}", d)
                size_check(t, x.numpy(), f"array {dt} {shape}", d)
                t.step()
        # adding bytes adds exactly that many bytes
        from neuralcompression.metrics import pickle_size_of
        base = pickle_size_of([b"\0" * 300])
        for n in range(301, 1200, 7):
            t.check(pickle_size_of([b"\0" * n]) == base + n - 300, f"{n} bytes of data do not add {n - 300} bytes")
            t.state(n)
        for bad in (lambda: 0, (x for x in ())):
            try:
                pickle.dumps(bad)
            except Exception as e:  # noqa: BLE001
                t.must_raise("an object that cannot be pickled", (type(e), pickle.PicklingError, TypeError, AttributeError), pickle_size_of, bad)
    finally:
        shutil.rmtree(d)


def run_outputs(t, case):
    from neuralcompression import HyperpriorCompressedOutput
    from neuralcompression.metrics import pickle_size_of
    d = tempfile.mkdtemp(prefix="c32_")
    try:
        for h, w, n in itertools.product((1, 2, 3), (1, 2, 3), (0, 1, 4, 255, 256, 1000)):
            o = HyperpriorCompressedOutput(latent_strings=[bytes(n)], hyper_latent_strings=[b"\1" * (n // 2)], image_size=torch.Size((16 * h, 16 * w)), padded_size=torch.Size((64 * h, 64 * w)))
            got = size_check(t, o, f"compressed output {h}x{w} with {n} bytes", d)
            with open(os.path.join(d, "o.pkl"), "wb") as f:
                pickle.dump(o, f)
            back = pickle.load(open(os.path.join(d, "o.pkl"), "rb"))
            t.check(back == o and got is not None and got >= n, f"compressed output {h}x{w} with {n} bytes does not survive being stored")
            t.step()
        t.check(pickle_size_of(o) == len(pickle.dumps(o)), "size changed after storing")
    finally:
        shutil.rmtree(d)


def ref(p, base):
    return -math.log(p) / math.log(base) if p > 0 else math.inf


def close(got, want, dt, n=1):
    if math.isinf(want):
        return got == want
    return abs(got - want) <= (3e-6 if dt == torch.float32 else 1e-12) * max(1.0, abs(want)) * max(1, n ** 0.5)


def run_info(t, case):
    from neuralcompression.functional import information_content
    for dt in (torch.float32, torch.float64):
        for n in range(1, case["n"] + 1):
            for rest in itertools.product(PROBS, repeat=n - 1):
                p = (PROBS[case["a"]],) + rest
                x = torch.tensor(p, dtype=dt)
                st = [float(v) for v in x]
                for base in BASES:
                    want = [ref(v, base) for v in st]
                    none = information_content(x, reduction="none", base=base)
                    t.check(none.dtype == dt and none.shape == x.shape and all(close(float(a), b, dt) for a, b in zip(none, want)), f"information of {p} base {base}: {none.tolist()}, definition {want}")
                    s = information_content(x, reduction="sum", base=base)
                    t.check(s.ndim == 0 and close(float(s), math.fsum(want), dt, n), f"total information of {p} base {base}: {float(s)}, definition {math.fsum(want)}")
                    be = information_content(x.reshape(1, n), reduction="batch_el", base=base)
                    t.check(tuple(be.shape) == (1,) and close(float(be[0]), math.fsum(want), dt, n), f"per-element information of {p} base {base}: {be.tolist()}")
                    t.check(float(s) >= 0, f"information of {p} is negative")
                    t.step()
                d = information_content(x)
                t.check(close(float(d), math.fsum(ref(v, 2.0) for v in st), dt, n), f"default information of {p} is not the total number of bits")
                t.check(st == [float(v) for v in x], f"the probabilities {p} were modified")
                g = x.clone().requires_grad_()
                information_content(g).backward()
                t.check(torch.allclose(g.grad, -1 / (x * math.log(2)), rtol=1e-5), f"gradient of the information of {p}")
                t.state(str(dt), p)
                t.trace()


def run_shapes(t, case):
    from neuralcompression.functional import information_content
    r = case["rank"]
    for shape in itertools.product((1, 2, 3), repeat=r):
        n = math.prod(shape)
        for dt in (torch.float32, torch.float64):
            x = ((torch.arange(n) * 7 % 13 + 1).to(dt) / 16).reshape(shape)
            lay = {"plain": x, "strided": torch.stack([x, x * 0 + 1], -1)[..., 0], "flipped": x.flip(0)}
            if r >= 2:
                lay["transposed"] = x.transpose(0, 1).contiguous().transpose(0, 1)
                lay["reversed"] = x.permute(*reversed(range(r))).contiguous().permute(*reversed(range(r)))
                lay["expanded"] = x[..., :1].expand(shape)
                lay["tail"] = x.transpose(-1, -2).contiguous().transpose(-1, -2)
            if r == 4:
                lay["channels_last"] = x.to(memory_format=torch.channels_last)
            if r == 5:
                lay["channels_last_3d"] = x.to(memory_format=torch.channels_last_3d)
            for name, y in lay.items():
                what = f"{shape} {name} {dt}"
                bits = [[-math.log2(float(v)) for v in y[i].flatten()] for i in range(shape[0])]
                ok, be = t.attempt(f"per-element information of {what}", information_content, y, "batch_el")
                if ok:
                    t.check(tuple(be.shape) == (shape[0],) and all(close(float(a), math.fsum(b), dt, n) for a, b in zip(be, bits)), f"per-element information of {what}: {be.tolist()}, definition {[math.fsum(b) for b in bits]}")
                ok, s = t.attempt(f"information of {what}", information_content, y, "sum")
                if ok:
                    t.check(close(float(s), math.fsum(sum(bits, [])), dt, n), f"information of {what}: {float(s)}")
                ok, z = t.attempt(f"pointwise information of {what}", information_content, y, "none")
                if ok:
                    t.check(z.shape == y.shape and all(close(float(a), b, dt) for a, b in zip(z.flatten(), sum(bits, []))), f"pointwise information of {what}")
                t.state(what)
                t.trace()


def run_reject(t, case):
    from neuralcompression.functional import information_content
    # every power of two the format can hold, normal and subnormal: the information is its exponent
    for dt, low in ((torch.float32, -149), (torch.float64, -1074)):
        for e in range(low, 1):
            p = torch.tensor([[1.0, 2.0 ** e], [0.5, 1.0]], dtype=dt)
            if float(p[0, 1]) == 0.0:
                continue
            want = torch.tensor([[0.0, -e], [1.0, 0.0]], dtype=torch.float64)
            for red, w in (("none", want), ("batch_el", want.sum(1)), ("sum", want.sum())):
                g = information_content(p, red)
                t.check(g.shape == w.shape and torch.allclose(g.double(), w, rtol=1e-5, atol=1e-6), f"information ({red}) of probability 2^{e} {dt}: {g.tolist()}, definition {w.tolist()}")
            t.state("pow", str(dt), e)
    x = torch.rand(2, 3)
    for bad in ("", "mean", "Sum", "batch", "batch_els", "None", None, 0):
        t.must_raise(f"reduction {bad!r}", ValueError, information_content, x, bad)
        t.state(repr(bad))
    for shape in ((2, 2), (3, 1, 2)):
        z = torch.ones(shape)
        z[0] = 0.0
        t.check(math.isinf(float(information_content(z))) and float(information_content(z)) > 0, "an impossible symbol does not cost infinitely many bits")
        be = information_content(z, "batch_el")
        t.check(math.isinf(float(be[0])) and float(be[1]) == 0, f"impossible symbols of one element affect others: {be.tolist()}")


def run_case(t, case):
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
