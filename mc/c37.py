"""C37: restarting: every combination of leftovers and options, every crash point, torn write and preemption of the caching and preparation code."""
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
import types
from pathlib import Path
import numpy as np
import torch
import torch.nn as nn
from PIL import Image
from . import core, faults, fsenv

PID = "C37"
ASSUMPTIONS = ["the training framework (lightning, pytorch_lightning, hydra, wandb: not installed) is replaced by a stand-in that records what it is asked to do",
               "a crash ends the process before a file-system operation or in the middle of a write; operations already carried out stay (no reordering by the file system)",
               "resuming when only checkpoints other than last.ckpt are there is left open (fresh start or one of them)",
               "CIFAR-10 is replaced by a data set of a few images"]
FILES = ["last.ckpt", "epoch=3.ckpt", "last-v1.ckpt", "last_good.ckpt", "notes.txt", "sub/last.ckpt"]
_cwd = os.getcwd()


def bounds(tier):
    return ("checkpoint lookup of three projects: all 64 sets of leftover files x overwrite x resume x 2-3 directory settings; image-log cache: all histories of up to %d runs over 4 configurations x every crash point, %s torn or failing write sizes, "
            "and every preemption of one run by another (finished or killed at every point); CIFAR-10 preparation: all histories of up to %d interrupted runs x overwrite x every crash point and torn write; training and evaluation entry points over all "
            "optimiser counts 1..3, step budgets and 0..3 test sets" % ((2, "17", 2) if tier == "quick" else (3, "129", 3)))


def cases(tier):
    q = tier == "quick"
    for ow, rt in itertools.product((0, 1), (0, 1)):
        for p in ("illm", "dvc", "vct"):
            yield {"kind": "ckpt", "p": p, "ow": ow, "rt": rt}
    for first in range(4):
        yield {"kind": "cache", "first": first, "depth": 2 if q else 3, "torn": 17 if q else 129}
        yield {"kind": "race", "first": first}
    for init in ("empty", "old", "oldtrain"):
        for ow in (0, 1):
            yield {"kind": "cifar", "init": init, "ow": ow, "depth": 2 if q else 3}
    yield {"kind": "cifarsize"}
    yield {"kind": "steps"}
    yield {"kind": "eval"}
    yield {"kind": "stages"}


def load(project, name):
    """Import projects/<project>/<name>.py afresh; the projects' module names clash."""
    from . import fakelightning as fl
    fl.install()
    import torchmetrics
    import torchmetrics.image as tmi
    if not hasattr(torchmetrics, "PSNR"):
        torchmetrics.PSNR = torchmetrics.PeakSignalNoiseRatio
    for n in ("FrechetInceptionDistance", "LearnedPerceptualImagePatchSimilarity"):
        tmi.__dict__[n] = fl.Recorder
    root = os.path.join(core.REPO, "projects")
    want = os.path.join(root, project)
    for n, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None) or ""
        if f.startswith(root + os.sep) and not f.startswith(want + os.sep):
            del sys.modules[n]
    sys.path[:] = [want] + [p for p in sys.path if not p.startswith(root + os.sep)]
    import importlib
    return importlib.import_module(name), fl


@contextlib.contextmanager
def inside(d):
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.chdir(_cwd)


def listing(d):
    d = Path(d)
    return {str(p.relative_to(d)): (p.read_bytes() if p.is_file() else None) for p in sorted(d.rglob("*"))} if d.exists() else None


class Net(nn.Module):
    def __init__(self, v=0.0):
        super().__init__()
        self.w = nn.Parameter(torch.tensor([v, v + 1]))


# --- checkpoint lookup -----------------------------------------------------------

def lookup_illm(mod, fl, root, d, ow, rt):
    cfg = fl.DictConfig(checkpoint=fl.DictConfig(overwrite=ow, resume_training=rt, callback=fl.DictConfig(dirpath=str(d), save_top_k=1)))
    return mod.fetch_checkpoint(cfg)


def lookup_dvc(mod, fl, root, d, ow, rt, given=True):
    fl.Trainer.made.clear()
    new = Net(5.0)

    class Module(fl.LightningModule):
        def __init__(self, model, **k):
            super().__init__()
            self.kw, self.inner = k, model

        def recompose_model(self, model):
            return ("recomposed", model, self.inner)
    mod.DvcModule = Module
    C = fl.DictConfig
    base, stage = C(a=1, b=2), C(b=3, c=4)
    cfg = C(training_stages=C(s1=C(save_dir=str(d) if given else None, module=stage, trainer=C(max_steps=7))), checkpoint=C(overwrite=ow, resume_training=rt, model_checkpoint=C(save_last=True)), module=base, trainer=C(gpus=0, max_steps=1))
    lg, il = object(), object()
    out = mod.run_training_stage("s1", Path(root), new, "data", lg, il, cfg)
    tr = [x for x in fl.Trainer.made if x.runs]
    assert len(tr) == 1 and len(tr[0].runs) == 1 and tr[0].runs[0][0] == "fit", "not fitted exactly once"
    tr = tr[0]
    m = (tr.runs[0][1] or (tr.runs[0][2].get("model"),))[0]
    assert m.kw == {"a": 1, "b": 3, "c": 4} and dict(base) == {"a": 1, "b": 2} and dict(stage) == {"b": 3, "c": 4}, f"module settings {m.kw}"
    assert tr.kwargs["gpus"] == 0 and tr.kwargs["max_steps"] == 7 and tr.kwargs["logger"] is lg and il in tr.kwargs["callbacks"], "trainer settings"
    assert out[0] == "recomposed" and out[1] is new and out[2] is new and m.inner is new, "model of the stage"
    saver = [c for c in tr.kwargs["callbacks"] if type(c).__name__ == "ModelCheckpoint"]
    assert len(saver) == 1 and Path(saver[0].args[1]["dirpath"]).absolute() == Path(d).absolute() and saver[0].args[1]["save_last"] is True, "checkpoint directory"
    return tr.kwargs.get("resume_from_checkpoint") or tr.runs[0][2].get("ckpt_path")


def lookup_vct(mod, fl, root, d, ow, rt, tests=False):
    fl.Trainer.made.clear()
    C = fl.DictConfig
    made = {}

    def datamodule(pin_memory):
        made["pin"] = pin_memory
        m = types.SimpleNamespace(setup=lambda stage=None: None, train_dataloader=lambda: [1, 2], val_dataloader=lambda: [3, 4])
        made["data"] = m
        return m

    def model():
        made["model"] = Net()
        return made["model"]

    def testdata(pin_memory):
        made["test"] = object()
        return made["test"]
    cfg = C(seed=3, checkpoint=C(overwrite=ow, resume_training=rt, callback=C(dirpath="checkpoints")), logger=C(), datamodule=datamodule, model=model, trainer=C(max_steps=9), ngpu=0, tester=C(limit=1))
    if tests:
        cfg["test_datamodule"] = testdata
        torch.distributed.destroy_process_group, old = lambda *a, **k: None, torch.distributed.destroy_process_group
    try:
        with inside(root):
            mod.main(cfg)
    finally:
        if tests:
            torch.distributed.destroy_process_group = old
    tr = [x for x in fl.Trainer.made if x.runs]
    assert len(tr) == (2 if tests else 1) and len(tr[0].runs) == 1 and tr[0].runs[0][0] == "fit", "not fitted exactly once"
    k = tr[0].runs[0][2]
    m = k.get("model") or tr[0].runs[0][1][0]
    assert m.model is made["model"] and k.get("datamodule") is made["data"] and made["pin"] is False, "fitted something else"
    assert tr[0].kwargs["max_steps"] == 9, "trainer settings"
    if tests:
        assert tr[1].runs[0][0] == "test" and tr[1].runs[0][2].get("datamodule") is made["test"] and not m.training, "test run"
    return k.get("ckpt_path")


def run_ckpt(t, case):
    p, ow, rt = case["p"], bool(case["ow"]), bool(case["rt"])
    mod, fl = load({"illm": "illm", "dvc": "deep_video_compression", "vct": "torch_vct"}[p], {"illm": "train", "dvc": "train", "vct": "model_train"}[p])
    variants = {"illm": ["abs", "rel"], "dvc": ["given", "default", "rel"], "vct": ["cwd", "tests"]}[p]
    for var, n in itertools.product(variants, range(-1, 2 ** len(FILES))):
        with fsenv.scratch() as root:
            root = Path(root).resolve()
            d = root / {"default": "s1", "cwd": "checkpoints", "tests": "checkpoints"}.get(var, "a/ck")
            files = [f for i, f in enumerate(FILES) if n >= 0 and n >> i & 1]
            if n >= 0:
                d.mkdir(parents=True)
            for f in files:
                (d / f).parent.mkdir(exist_ok=True)
                (d / f).write_bytes(b"content of " + f.encode())
            other = root / "other"
            other.mkdir()
            (other / "last.ckpt").write_bytes(b"x")
            before = listing(d)
            what = f"{p} {var}: leftovers {files if n >= 0 else 'none, no directory'}, overwrite={ow}, resume={rt}"

            def call():
                if p == "illm":
                    with inside(root):
                        r = lookup_illm(mod, fl, root, "a/ck" if var == "rel" else d, ow, rt)
                elif p == "dvc":
                    with inside(root):
                        r = lookup_dvc(mod, fl, root, "a/ck" if var == "rel" else d, ow, rt, given=var != "default")
                else:
                    r = lookup_vct(mod, fl, root, d, ow, rt, tests=var == "tests")
                return None if r is None else (root / str(r)).resolve()
            top = [f for f in files if f.endswith(".ckpt") and "/" not in f]
            if not ow and not rt and top:
                t.must_raise(what, RuntimeError, call)
                t.check(listing(d) == before, f"{what}: refused but changed the directory")
            else:
                ok, r = t.attempt(what, call)
                if ok:
                    if ow or not top:
                        t.check(r is None, f"{what}: continues from {r} instead of starting afresh")
                    elif "last.ckpt" in files:
                        t.check(r == d / "last.ckpt", f"{what}: continues from {r}")
                    else:
                        t.check(r is None, f"{what}: continues from {r}")
                    after = listing(d)
                    t.check(after is not None and {k: v for k, v in after.items() if k in (before or {})} == (before or {}), f"{what}: changed the leftovers to {after and sorted(after)}")
            t.state(p, var, n, ow, rt)
            t.step()
            t.trace()


# --- image-log cache ------------------------------------------------------------

def picture(src, split, i):
    return (torch.arange(48.0).reshape(3, 4, 4) + 100 * i + 1000 * (split == "val") + 10000 * src)


CONFIGS = [("data.A", (0, 1), (2,)), ("data.A", (0,), (1, 2)), ("data.A", (1, 0), (2,)), ("data.B", (0, 1), (2,))]


class Data:
    def __init__(self, src):
        self.src = src

    def setup(self, stage=None):
        self.train_dataset = [picture(self.src, "train", i) for i in range(3)]
        self.eval_dataset = [picture(self.src, "val", i) for i in range(3)]


def expected(c):
    tgt, a, b = CONFIGS[c]
    s = int(tgt == "data.B")
    return torch.stack([picture(s, "train", i) for i in a]), torch.stack([picture(s, "val", i) for i in b])


def build(mod, fl, d, c):
    C = fl.DictConfig
    tgt, a, b = CONFIGS[c]
    cfg = C(image_logs=C(log_cache_dir=str(d), train_log_indices=list(a), val_log_indices=list(b)), data=C(_target_=tgt))
    return mod.build_wandb_image_logger(cfg, Data(int(tgt == "data.B")))


def right(mod, fl, d, c):
    cb = build(mod, fl, d, c)
    w = expected(c)
    return bool(torch.equal(cb.train_batch, w[0]) and torch.equal(cb.eval_batch, w[1]))


def ops(fn, d, root=None):
    """The mutating file-system operations of fn on a scratch copy of d."""
    e = clone(d)
    st, info = faults.in_child(lambda: fn(e), root=os.path.join(e, root) if root else e, crash_at=-1, kinds=[])
    shutil.rmtree(e)
    return eval(info) if st == "ok" else []


def points(kinds):
    """Crash points: before each operation and, for files opened for writing, also after the opening."""
    return [(k, after) for k, ev in enumerate(kinds) for after in ((False, True) if ev == "open" else (False,))]


def clone(src):
    d = tempfile.mkdtemp(dir=os.path.dirname(src))
    shutil.copytree(src, d, dirs_exist_ok=True)
    return d


def canon(d):
    return tuple(sorted((re.sub(r"\d+", "#", k) if not k.endswith((".pkl", ".png")) else k, core.digest(v) if v is not None else "dir") for k, v in (listing(d) or {}).items()))


def run_cache(t, case):
    mod, fl = load("illm", "train")
    with fsenv.scratch() as root:
        os.makedirs(os.path.join(root, "s"))
        start = os.path.join(root, "s")
        seen = set()
        frontier = [(start, (), [case["first"]])]
        for depth in range(case["depth"]):
            nxt = []
            for d, hist, todo in frontier:
                for c in todo:
                    fn = lambda x, c=c: right(mod, fl, os.path.join(x, "cache"), c)
                    e = clone(d)
                    st, info = faults.in_child(lambda: fn(e))
                    t.check(st == "ok" and info == "True", f"after {hist}: configuration {c} gets {'other images' if st == 'ok' else info}")
                    acts = [(("run", c), e)]
                    for k, after in points(ops(fn, d)):
                        e = clone(d)
                        st, _ = faults.in_child(lambda: fn(e), root=e, crash_at=k, after=after)
                        t.check(st == "crash", f"after {hist}: crash point {k} of configuration {c} gives {st}")
                        acts.append((("crash", c, k, after), e))
                    size = max([len(v) for v in (listing(acts[0][1]) or {}).values() if v] + [0])
                    few = (0, (case["torn"] - 1) // 2, case["torn"] - 1)
                    for j, full in itertools.product(range(case["torn"]) if depth == 0 else few, (False, True)):
                        e = clone(d)
                        st, info = faults.in_child(lambda: fn(e), limit=max(0, size - 1) * j // (case["torn"] - 1), full=full)
                        t.check(st in ("crash", "error", "ok") and (st != "ok" or info == "True"), f"after {hist}: configuration {c} with a write stopped at {j}: {st} {info}")
                        acts.append((("full" if full else "torn", c, j), e))
                    for name, e in acts:
                        key = canon(e)
                        t.step()
                        if (depth, key) in seen:
                            shutil.rmtree(e)
                            continue
                        seen.add((depth, key))
                        t.state(key)
                        # whatever was left behind: every configuration still gets its own images
                        for c2 in range(4):
                            f = clone(e)
                            st, info = faults.in_child(lambda: right(mod, fl, os.path.join(f, "cache"), c2))
                            t.check(st == "ok" and info == "True", f"after {hist + (name,)}: configuration {c2} gets {'other images' if st == 'ok' else info}")
                            if st == "ok":
                                st, info = faults.in_child(lambda: right(mod, fl, os.path.join(f, "cache"), c2))
                                t.check(st == "ok" and info == "True", f"after {hist + (name,)} and a finished run: configuration {c2} gets {'other images' if st == 'ok' else info}")
                            shutil.rmtree(f)
                            t.trace()
                        if name[0] in ("run", "crash") or name[2] in few:
                            nxt.append((e, hist + (name,), range(4) if depth + 1 < 2 else [case["first"], (case["first"] + 1) % 4]))
                        else:
                            shutil.rmtree(e)
            frontier = nxt


def run_race(t, case):
    """A run is preempted before each of its file-system operations by a second run, which finishes or is killed."""
    mod, fl = load("illm", "train")
    a = case["first"]
    with fsenv.scratch() as root:
        start = os.path.join(root, "s")
        os.makedirs(start)
        n = len(ops(lambda x: right(mod, fl, os.path.join(x, "cache"), a), start))
        for b in range(4):
            nb = len(ops(lambda x: right(mod, fl, os.path.join(x, "cache"), b), start))
            for k in range(n):
                for kill in [None] + list(range(nb + 1)):
                    e = clone(start)
                    c = os.path.join(e, "cache")
                    r, w = os.pipe()

                    def second():
                        st, info = faults.in_child(lambda: right(mod, fl, c, b), root=e, crash_at=kill, after=True)
                        os.write(w, f"{st} {info}".encode())
                    st, info = faults.in_child(lambda: right(mod, fl, c, a), root=e, crash_at=k, action=second)
                    os.close(w)
                    got = os.read(r, 65536).decode()
                    os.close(r)
                    what = f"configuration {a} preempted before operation {k} by configuration {b}" + (f" (killed at {kill})" if kill is not None else "")
                    t.check(st == "ok" and info == "True", f"{what}: first run gets {'other images' if st == 'ok' else info}")
                    t.check(got in ("ok True", "crash ") and (kill is not None or got == "ok True"), f"{what}: second run gets {got}")
                    for x in (a, b):
                        st, info = faults.in_child(lambda: right(mod, fl, c, x))
                        t.check(st == "ok" and info == "True", f"{what}: later run of configuration {x} gets {'other images' if st == 'ok' else info}")
                    t.state(a, b, k, kill)
                    t.step()
                    t.trace()
                    shutil.rmtree(e)


# --- CIFAR-10 preparation ----------------------------------------------------------

N = {"train": 3, "valid": 2}


def pic(split, i, old):
    return Image.fromarray((np.arange(48).reshape(4, 4, 3) * 3 + 7 * i + (90 if split == "train" else 20) + (31 if old else 0)).astype(np.uint8) % 255)


def label(split, i):
    return (3 * i + (split == "train")) % 10


def cifar(sizes=N):
    import importlib.util
    f = os.path.join(core.REPO, "projects", "bits_back_diffusion", "datasets", "cifar10.py")
    spec = importlib.util.spec_from_file_location("cifar10_script", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for v in list(vars(m).values()):  # the published sizes, wherever they are kept
        if isinstance(v, dict):
            for k in v:
                if v[k] == 50000:
                    v[k] = N["train"]
                elif v[k] == 10000:
                    v[k] = N["valid"]

    class CIFAR10:
        def __init__(self, root=None, train=True, transform=None, target_transform=None, download=False):
            assert download and os.path.isdir(root)
            self.s = "train" if train else "valid"

        def __len__(self):
            return sizes[self.s]

        def __getitem__(self, i):
            if not 0 <= i < len(self):
                raise IndexError(i)
            return pic(self.s, i, False), label(self.s, i)
    import torchvision
    torchvision.datasets.CIFAR10 = CIFAR10
    return m


def prepare(m, d, ow):
    sys.argv = ["cifar10.py", "-o", os.path.join(d, "out")] + (["-w"] if ow else [])
    tempfile.tempdir = os.path.join(d, "tmp")
    m.main()


CLS = ["plane", "car", "bird", "cat", "deer", "dog", "frog", "horse", "ship", "truck"]


def split_state(d, split):
    p = Path(d) / "out" / f"{split}_32x32"
    if not p.exists():
        return "absent"
    names = {f"{CLS[label(split, i)]}_{i:05d}.png": i for i in range(N[split])}
    got = sorted(x.name for x in p.iterdir())
    if got != sorted(names):
        return f"partial {got}"
    kinds = set()
    for n, i in names.items():
        try:
            a = np.asarray(Image.open(p / n).convert("RGB"))
        except Exception as e:
            return f"broken {n}: {type(e).__name__}"
        kinds |= {k for k, old in (("new", False), ("old", True)) if np.array_equal(a, np.asarray(pic(split, i, old)))} or {"other"}
    return kinds.pop() if len(kinds) == 1 else f"mixed {sorted(kinds)}"


def run_cifar(t, case):
    m = cifar()
    Image.init()
    pic("train", 0, False).save(io.BytesIO(), "png")
    keep = tempfile.tempdir, sys.argv
    with contextlib.suppress(BaseException), fsenv.scratch() as w, contextlib.redirect_stderr(io.StringIO()):
        os.makedirs(os.path.join(w, "tmp"))
        prepare(m, w, False)  # whatever is imported on the way is now there before forking
    tempfile.tempdir, sys.argv = keep
    with fsenv.scratch() as root:
        start = os.path.join(root, "s")
        os.makedirs(os.path.join(start, "tmp"))
        for split in {"empty": [], "old": ["train", "valid"], "oldtrain": ["train"]}[case["init"]]:
            p = Path(start) / "out" / f"{split}_32x32"
            p.mkdir(parents=True)
            for i in range(N[split]):
                pic(split, i, True).save(p / f"{CLS[label(split, i)]}_{i:05d}.png")
        frontier = [(start, (), [case["ow"]])]
        seen = set()
        for depth in range(case["depth"]):
            nxt = []
            for d, hist, flags in frontier:
                before = {s: split_state(d, s) for s in N}
                for ow in flags:
                    fn = lambda x, ow=ow: prepare(m, x, ow)
                    e = clone(d)
                    st, info = faults.in_child(lambda: fn(e))
                    acts = [(("run", ow), e, st, info)]
                    for k, after in points(ops(fn, d, "out")):
                        e = clone(d)
                        st, info = faults.in_child(lambda: fn(e), root=os.path.join(e, "out"), crash_at=k, after=after)
                        acts.append((("crash", ow, k, after), e, st, info))
                    for lim, full in itertools.product((0, 30, 60), (False, True)):
                        e = clone(d)
                        st, info = faults.in_child(lambda: fn(e), limit=lim, full=full)
                        acts.append((("full" if full else "torn", ow, lim), e, st, info))
                    for name, e, st, info in acts:
                        t.step()
                        h = hist + (name,)
                        now = {s: split_state(e, s) for s in N}
                        for s in N:
                            allowed = {before[s], "new"} if ow or before[s] == "absent" else {before[s]}
                            if ow:
                                allowed.add("absent")
                            t.check(now[s] in allowed, f"from {case['init']} after {h}: split {s} is {now[s]}, was {before[s]}")
                            if st == "ok":
                                t.check(now[s] == ("new" if ow or before[s] == "absent" else before[s]), f"from {case['init']} after {h} finished: split {s} is {now[s]}, was {before[s]}")
                        if name[0] == "run":
                            t.check(st == "ok", f"from {case['init']} after {h}: {info}")
                        key = canon(os.path.join(e, "out"))
                        if (depth, key) in seen:
                            shutil.rmtree(e)
                            continue
                        seen.add((depth, key))
                        t.state(key)
                        f = clone(e)
                        st, info = faults.in_child(lambda: prepare(m, f, False))
                        t.check(st == "ok", f"from {case['init']} after {h}: repeating fails with {info}")
                        for s in N:
                            g = split_state(f, s)
                            t.check(g == ("new" if now[s] == "absent" else now[s]) and g in ("new", "old"), f"from {case['init']} after {h} and a repeated run: split {s} is {g}")
                        shutil.rmtree(f)
                        t.trace()
                        nxt.append((e, h, (0, 1)))
            frontier = nxt


def run_cifarsize(t, case):
    for a, b in itertools.product((2, 3, 4), (1, 2, 3)):
        if (a, b) == (3, 2):
            continue
        m = cifar({"train": a, "valid": b})
        with fsenv.scratch() as root:
            os.makedirs(os.path.join(root, "tmp"))
            st, info = faults.in_child(lambda: prepare(m, root, False))
            what = f"data set of {a} training and {b} validation images"
            t.check(st == "error", f"{what}: {st} {info}")
            for s, n in (("train", a), ("valid", b)):
                g = split_state(root, s)
                t.check(g == "absent" or (n == N[s] and g == "new"), f"{what}: split {s} is {g}")
            t.state("size", a, b)
            t.trace()


# --- training and evaluation entry points ---------------------------------------------

def illm_cfg(fl, root, **k):
    C = fl.DictConfig
    base = dict(seed=1, logger=C(group="dev"), training_mode="train", trainer=C(max_steps=10, devices=1), ngpu=1,
                checkpoint=C(overwrite=False, resume_training=True, callback=C(dirpath=os.path.join(root, "ck"), save_last=True)),
                image_logs=C(log_cache_dir=os.path.join(root, "cache"), train_log_indices=[0], val_log_indices=[1]))
    base.update(k)
    return C(base)


class DataFactory:
    """Callable configuration entry with the target attribute the cache key uses."""
    _target_ = "data.A"

    def __call__(self, val_batch_size=None, **k):
        self.made = Data(0)
        return self.made


class Module(nn.Module):
    def __init__(self, n=1):
        super().__init__()
        self.model, self.n, self.names = Net(), n, []

    def configure_optimizers(self):
        o = [torch.optim.SGD([self.model.w], lr=0.1) for _ in range(self.n)]
        return o, []

    def update_test_dataset_name(self, name):
        self.names.append(name)


def run_steps(t, case):
    mod, fl = load("illm", "train")
    for n, steps, mode, group in itertools.product((1, 2, 3), (0, 1, 7, 10, 1000000), ("train", "eval"), ("dev", "x")):
        with fsenv.scratch() as root:
            cfg = illm_cfg(fl, root, trainer=fl.DictConfig(max_steps=steps, devices=2), training_mode=mode, logger=fl.DictConfig(group=group), data=DataFactory())
            fl.Trainer.made.clear()
            with inside(root):
                ok, tr = t.attempt(f"trainer with {n} optimisers", mod.build_trainer, cfg, Data(0), Module(n))
            if not ok:
                continue
            t.check(tr.kwargs["max_steps"] == steps * n, f"{n} optimisers, {steps} steps: trainer runs {tr.kwargs['max_steps']} optimiser steps")
            t.check(tr.kwargs["devices"] == 2 and cfg.trainer["max_steps"] == steps, f"trainer settings {tr.kwargs['devices']}, configuration now {cfg.trainer}")
            cbs = {type(c).__name__: c for c in tr.kwargs["callbacks"]}
            t.check("ModelCheckpoint" in cbs and cbs["ModelCheckpoint"].args[1] == dict(cfg.checkpoint.callback), "checkpoint callback settings")
            il = [c for c in tr.kwargs["callbacks"] if hasattr(c, "train_batch")]
            t.check(len(il) == 1 and torch.equal(il[0].train_batch, picture(0, "train", 0)[None]) and torch.equal(il[0].eval_batch, picture(0, "val", 1)[None]), "logged images")
            t.state("steps", n, steps, mode, group)
            t.trace()
    # two working directories never share a run id; one keeps it over restarts
    ids = {}
    with fsenv.scratch() as root:
        for w, rep in itertools.product(("a", "b", "a/b"), (0, 1)):
            d = os.path.join(root, w)
            os.makedirs(d, exist_ok=True)
            cfg = illm_cfg(fl, root, data=DataFactory())
            with inside(d):
                tr = mod.build_trainer(cfg, Data(0), Module(1))
            i = tr.kwargs["logger"].args[1]["id"]
            t.check(ids.setdefault(w, i) == i, f"run id of {w} changes over restarts")
            t.state("id", w, rep)
    t.check(len(set(ids.values())) == 3, "run ids of different directories collide")


def run_eval(t, case):
    mod, fl = load("illm", "train")
    C = fl.DictConfig
    for ntests, ow, last, ngpu, mode, ndisc in itertools.product(range(4), (False, True), (False, True), (0, 1, 2), ("test", "train"), (1, 2)):
        with fsenv.scratch() as root:
            if last:
                os.makedirs(os.path.join(root, "ck"))
                sd = {"model.w": torch.tensor([8.0, 9.0]), "discriminator.w": torch.tensor([1.0]), "modelx": torch.tensor(3.0), "xmodel.w": torch.tensor([4.0, 4.0])}
                torch.save({"state_dict": sd, "epoch": 3}, os.path.join(root, "ck", "last.ckpt"))
            made = []

            def factory(i):
                def f():
                    made.append(i)
                    return f"loader{i}"
                return f
            m = Module(ndisc)
            m.train()
            mod.build_module = lambda cfg: m
            df = DataFactory()
            tests = C({f"t{9 - i}": C(name=f"set{i}", class_params=factory(i)) for i in range(ntests)})
            cfg = illm_cfg(fl, root, data=df, training_mode=mode, ngpu=ngpu, test_dataloaders=tests,
                           checkpoint=C(overwrite=ow, resume_training=True, callback=C(dirpath=os.path.join(root, "ck"))))
            fl.Trainer.made.clear()
            what = f"mode {mode}, {ntests} test sets, overwrite={ow}, last checkpoint {last}, {ngpu} GPUs"
            use = last and not ow

            def go():
                with inside(root):
                    mod.main(cfg)
            if mode == "test" and not use:
                t.must_raise(what, (AssertionError, RuntimeError, ValueError), go)
            elif mode == "test" and ngpu > 1:
                t.must_raise(what, ValueError, go)
            else:
                ok, _ = t.attempt(what, go)
                if ok:
                    runs = [r for x in fl.Trainer.made for r in x.runs]
                    if mode == "train":
                        t.check(len(runs) == 1 and runs[0][0] == "fit", f"{what}: ran {runs}")
                        if len(runs) == 1:
                            a = dict(zip(("model", "train_dataloaders", "val_dataloaders", "datamodule", "ckpt_path"), runs[0][1]))
                            a.update(runs[0][2])
                            t.check(a["model"] is m and a.get("datamodule") is df.made and a.get("ckpt_path") == (os.path.join(root, "ck", "last.ckpt") if use else None), f"{what}: fit called with {a}")
                            t.check(torch.equal(m.model.w.detach(), torch.tensor([0.0, 1.0])), f"{what}: weights changed before training")
                    else:
                        t.check(m.names == [f"set{i}" for i in range(ntests)] and made == list(range(ntests)), f"{what}: data sets {m.names}, loaders {made}")
                        t.check([r[0] for r in runs] == ["test"] * ntests, f"{what}: ran {[r[0] for r in runs]}")
                        for i, r in enumerate(runs):
                            k = r[2]
                            dl = k.get("dataloaders")
                            t.check((k.get("model") or r[1][0]) is m and (dl == f"loader{i}" or dl == [f"loader{i}"]), f"{what}: test run {i} uses {r[1:]}")
                        t.check(torch.equal(m.model.w.detach(), torch.tensor([8.0, 9.0])) and not m.training and not m.model.training, f"{what}: tested weights {m.model.w.tolist()}, training={m.training}")
            t.state(ntests, ow, last, ngpu, mode, ndisc)
            t.trace()
    del sys.modules["train"]


def run_stages(t, case):
    """DVC: every set of stages runs in name order, each on the model the previous one returned; logged clips are distinct."""
    mod, fl = load("deep_video_compression", "train")
    C = fl.DictConfig
    names = ["10_a", "1_a", "2_b", "s3"]
    real = mod.run_training_stage
    for n in range(16):
        order = [s for i, s in enumerate(names) if n >> i & 1]
        for perm in set(itertools.permutations(order)):
            calls = []

            def stage(stage, root, model, data, logger, image_logger, cfg):
                calls.append((stage, model, image_logger.batch, str(root)))
                return ("after", stage, model)
            mod.run_training_stage = stage
            mod.DVC = lambda **k: ("fresh", k["coder_channels"])

            class Vimeo:
                def __init__(self, frames_per_group=None, **k):
                    self.k = (frames_per_group, k)

                def setup(self, stage=None):
                    self.val_dataset = [torch.full((1,), float(i)) for i in range(6)]
            mod.Vimeo90kSeptupletLightning = Vimeo
            for num, seed in ((1, 123), (4, 123), (6, 5), (9, 5)):
                calls.clear()
                with fsenv.scratch() as root:
                    cfg = C(logging=C(save_root=root, image_seed=seed, num_log_images=num), model=C(coder_channels=3), data=C(data_dir="x"), ngpu=0, training_stages=C({s: C() for s in perm}))
                    ok, _ = t.attempt(f"stages {perm}", mod.main, cfg)
                if not ok:
                    continue
                t.check([c[0] for c in calls] == sorted(order), f"stages {perm} run in order {[c[0] for c in calls]}")
                want = ("fresh", 3)
                for c in calls:
                    t.check(c[1] == want, f"stages {perm}: stage {c[0]} starts from {c[1]} instead of {want}")
                    want = ("after", c[0], c[1])
                    v = sorted(c[2].flatten().tolist())
                    t.check(len(v) == min(num, 6) and len(set(v)) == len(v), f"{num} logged clips: {v}")
                t.state(perm, num, seed)
                t.trace()
    mod.run_training_stage = real
    del sys.modules["train"]


def run_case(t, case):
    torch.set_num_threads(1)
    try:
        globals()["run_" + case["kind"]](t, case)
    finally:
        os.chdir(_cwd)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
