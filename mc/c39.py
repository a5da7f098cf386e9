"""C39: the scripts of the diffusion project over all interruptions, restarts and process counts."""
import importlib
import itertools
import os
import shutil
import sys
import threading
import types
import numpy as np
import torch
from . import core, faults, fsenv

PID = "C39"
ASSUMPTIONS = ["craystack, improved_diffusion, hydra, omegaconf and wandb (not installed) are replaced by stand-ins that follow their published interface",
               "a crash loses nothing that was written before it; a file may be missing, empty or cut at any of the enumerated sizes",
               "the processes of a distributed run are threads that meet at every collective operation; encoding processes share nothing but the final barrier and are run one by one",
               "the initial message is long enough for the first bits-back pop, as the codec's default length is"]
_m = {}


class Cfg(dict):
    """A configuration node: attribute access; callable nodes are what hydra would instantiate."""

    def __init__(self, _fn=None, **k):
        super().__init__(**k)
        object.__setattr__(self, "_fn", _fn)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        self[n] = v

    def __call__(self, *a, **k):
        return self._fn(self, *a, **k)


class World:
    """Collective operations of W processes, each a thread."""

    def __init__(self, n):
        self.n, self.local, self.box = n, threading.local(), [None] * n
        self.bar = threading.Barrier(n)

    def rank(self, *a, **k):
        return getattr(self.local, "rank", 0)

    def size(self, *a, **k):
        return self.n

    def meet(self, x):
        self.box[self.rank()] = x
        self.bar.wait(30)
        out = list(self.box)
        self.bar.wait(30)
        return out

    def all_gather(self, out, x, *a, **k):
        for o, v in zip(out, self.meet(x.clone())):
            o.copy_(v)

    def all_reduce(self, x, *a, **k):
        vs = self.meet(x.clone())
        x.copy_(sum(vs[1:], vs[0]))

    def barrier(self, *a, **k):
        self.meet(None)

    def sync_params(self, ps):
        ps = list(ps)
        got = self.meet([p.detach().clone() for p in ps])[0]
        with torch.no_grad():
            for p, v in zip(ps, got):
                p.copy_(v)

    def run(self, fn):
        res = [None] * self.n

        def one(r):
            self.local.rank = r
            try:
                res[r] = ("ok", fn(r))
            except BaseException as e:
                res[r] = ("error", f"{type(e).__name__}: {e}")
                self.bar.abort()
        ths = [threading.Thread(target=one, args=(r,)) for r in range(self.n)]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        return res


class TrainLoop:
    """The published base class, as far as loading is concerned."""

    def __init__(self, model, resume_checkpoint="", **k):
        self.model, self.resume_checkpoint, self.resume_step = model, resume_checkpoint, 0
        self._load_and_sync_parameters()
        self.master_params = list(model.parameters())

    def _state_dict_to_master_params(self, sd):
        return [sd[n] for n, _ in self.model.named_parameters()]


def find_ema_checkpoint(main_checkpoint, step, rate):
    if not main_checkpoint:
        return None
    p = os.path.join(os.path.dirname(main_checkpoint), f"ema_{rate}_{step:06d}.pt")
    return p if os.path.exists(p) else None


def mods():
    if not _m:
        from . import fakecraystack
        fakecraystack.install()
        f = fakecraystack
        d = os.path.join(core.REPO, "projects", "bits_back_diffusion")
        if d not in sys.path:
            sys.path.insert(0, d)
        log = sys.modules["improved_diffusion.logger"]
        cur = types.SimpleNamespace(dir=None, output_formats=[])

        def configure(dir=None, format_strs=None, **k):
            f.LOG.dir = os.path.abspath(dir)
            os.makedirs(f.LOG.dir, exist_ok=True)
            cur.dir, cur.output_formats = f.LOG.dir, []
        log.configure, log.get_current = configure, lambda: cur
        du = sys.modules["improved_diffusion.dist_util"]
        du.load_state_dict = lambda p, **k: torch.load(p, **k)
        tu = sys.modules["improved_diffusion.train_util"]
        tu.TrainLoop, tu.find_ema_checkpoint = TrainLoop, find_ema_checkpoint
        wb = sys.modules["wandb"]
        _m["init"], _m["plots"] = [], []
        wb.require = lambda *a, **k: None
        wb.init = lambda **k: (_m["init"].append(k), types.SimpleNamespace(log=lambda *a: None, finish=lambda: None))[1]
        wb.config = types.SimpleNamespace(update=lambda *a, **k: None)
        wb.log = lambda d, *a, **k: _m["plots"].append(d)
        ns = types.SimpleNamespace
        hc = ns(run=ns(dir="outputs/job/run"), job=ns(name="job"), overrides=ns(task=["a=1"]))
        sys.modules["hydra.core.hydra_config"].HydraConfig = ns(get=lambda: hc)
        sys.modules["hydra.utils"].to_absolute_path = os.path.abspath
        _m.update(f=f, cur=cur, codec=importlib.import_module("bits_back_diffusion.codec"), util=importlib.import_module("bits_back_diffusion.script_util"))
        world(World(1))
    return _m


def world(w):
    d = torch.distributed
    d.get_world_size, d.get_rank, d.barrier, d.all_gather, d.all_reduce = w.size, w.rank, w.barrier, w.all_gather, w.all_reduce
    sys.modules["improved_diffusion.dist_util"].sync_params = w.sync_params
    return w


def bounds(tier):
    q = tier == "quick"
    return ("encoding script: 1..%d batches x save intervals 1, 3 (2) x tracking, killed before each file-system operation, after creating each file and at write sizes, followed by a restart (%s), all pairs of sample counts of two runs x kills of both, 1..3 processes; "
            "bound script: 1..3 processes x 1..3 steps x batch 1..2 x sample counts 1..7; training restarts: 1..3 processes x all checkpoint subsets" % (3 if q else 4, "and pairs of kills for 2 batches" if q else "and all pairs of kills"))


def cases(tier):
    q = tier == "quick"
    for n in range(1, 4 if q else 5):
        for iv in (1, 3) if q else (1, 2, 3):
            for tr in (0, 1):
                yield {"kind": "kill", "n": n, "iv": iv, "track": tr, "pairs": int(not q or (n == 2 and not tr))}
    for a, b in itertools.permutations((1, 2, 3) if q else (1, 2, 3, 4), 2):
        for iv in (1, 3):
            yield {"kind": "grow", "a": a, "b": b, "iv": iv}
    for w in (1, 2, 3):
        yield {"kind": "ranks", "w": w}
        yield {"kind": "vlb", "w": w}
        yield {"kind": "train", "w": w}


class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(0.4))

    def forward(self, x, t):
        return self.w * x + 0.05 * t.reshape(-1, 1, 1, 1).float()


B = 2
SHAPE = (B, 1, 1, 2)


def lev(i, rank=0):
    return np.arange(B * 2).reshape(SHAPE) * (i + 1 + 3 * rank) * 5 % 4


def settings(n, iv, track=0, weight=0.4, w=1):
    """The configuration of an encoding run of n batches per process."""
    m = mods()

    def load_data(cfg, **k):
        r = torch.distributed.get_rank()
        for i in itertools.count():
            yield torch.from_numpy(-1 + 2 * lev(i % 5, r).astype(np.float64) / 3), {}

    def make_codec(cfg, model=None, **k):
        np.random.seed(len(os.listdir(m["f"].LOG.dir)))  # a new process has new random bits
        return m["codec"].BitsBackCodec(model=m["codec"].DiffusionModel(**model), data_shape=SHAPE, latent_prec=12, prior_prec=4, obs_prec=12, data_prec=2, initial_len=80, track=bool(track))
    return Cfg(data=Cfg(val=Cfg(load_data, data_dir="data", batch_size=B)), model=Cfg(lambda c: Net()), diffusion=Cfg(lambda c: m["f"].GaussianDiffusion(m["f"].betas(2))), codec=Cfg(make_codec),
               evaluator=Cfg(model_path="ema_0.9_000003.pt", num_samples=n * B * w, clip_denoised=True), encode_checkpoint=None, decode_checkpoint=None, check=True, save_interval=iv)


def start(d):
    torch.save({"w": torch.tensor(0.3)}, os.path.join(d, "ema_0.9_000003.pt"))


def program(d, *a, **k):
    """One process running the encoding script in directory d."""
    def fn():
        os.chdir(d)
        enc = importlib.import_module("encode")
        np.seterr(all="warn")
        enc.main(settings(*a, **k))
        return "done"
    return fn


def result(t, d, n, what, rank=0):
    """The run in d is complete and right for n batches."""
    log = os.path.join(d, f"logging_rank{rank:03d}")
    files = sorted(x for x in os.listdir(log) if x.startswith("batch") and x.endswith(".npz"))
    t.check(files == [f"batch{i:05d}.npz" for i in range(n)], f"{what}: decoded {files}, expected {n} batches")
    for i, x in enumerate(files[:n]):
        try:
            got = np.load(os.path.join(log, x))["batch"]
        except Exception as e:
            t.fail(f"{what}: {x} cannot be read ({e})")
            continue
        t.check(np.array_equal(got, lev(i % 5, rank)), f"{what}: batch {i} decodes to {np.ravel(got).tolist()}, given {np.ravel(lev(i % 5, rank)).tolist()}")
    t.step()


def sizes(d):
    return sorted({os.path.getsize(os.path.join(r, x)) for r, _, fs in os.walk(os.path.join(d, "logging_rank000")) for x in fs})


def tears(d):
    """Write sizes at which a process is cut: just short of, and half of, every file of a complete run."""
    s = sizes(d)
    return sorted({0} | {v - 1 for v in s} | {v // 2 for v in s})


def interruptions(fn, d):
    """Every way to interrupt fn in d (which is left as it was)."""
    ops, e = ops_of(fn, d)
    return [("kill", k, after) for k in range(ops) for after in (0, 1)] + [("cut", v, 0) for v in e]


def ops_of(fn, d):
    c = d + "_ops"
    shutil.copytree(d, c)
    try:
        st, info = faults.in_child(rebase(fn, c), root=c, crash_at=-1, kinds=[])
        assert st == "ok", info
        return len(eval(info)), tears(c)
    finally:
        shutil.rmtree(c)


def rebase(fn, c):
    return lambda: fn(c)


def interrupted(fn, d, how):
    kind, v, after = how
    if kind == "kill":
        return faults.in_child(lambda: fn(d), root=d, crash_at=v, after=bool(after))
    return faults.in_child(lambda: fn(d), limit=v)


def run_kill(t, case):
    mods()
    n = case["n"]

    def fn(d):
        return program(d, n, case["iv"], case["track"])()
    with fsenv.scratch() as root:
        first = os.path.join(root, "first")
        os.mkdir(first)
        start(first)
        ok, ways = t.attempt(f"{n} batches, undisturbed", interruptions, fn, first)
        if not ok:
            return
        for how in ways:
            d = os.path.join(root, "d")
            shutil.copytree(first, d)
            interrupted(fn, d, how)
            t.step()
            ways2 = [None]
            if case["pairs"] and how[0] == "kill" and not how[2]:
                ok, more = t.attempt(f"{n} batches, restarted after {how}", interruptions, fn, d)
                ways2 += [x for x in more if x[0] == "kill"] if ok else []
            for how2 in ways2:
                e = d
                if how2 is not None:
                    e = os.path.join(root, "e")
                    shutil.copytree(d, e)
                    interrupted(fn, e, how2)
                st, info = faults.in_child(lambda: fn(e))
                what = f"{n} batches, checkpoints every {case['iv']} samples, interrupted by {how}" + (f" and {how2}" if how2 else "")
                if t.check(st == "ok", f"{what}: the restarted run ends with {st}: {info[:200]}"):
                    result(t, e, n, what)
                t.state(how, how2)
                t.trace()
                if how2 is not None:
                    shutil.rmtree(e)
                elif len(ways2) > 1:
                    # keep the interrupted state for the second kill
                    shutil.rmtree(d)
                    shutil.copytree(first, d)
                    interrupted(fn, d, how)
            shutil.rmtree(d)


def run_grow(t, case):
    """A run for a batches, interrupted anywhere, then runs for b batches: complete for max(a, b)."""
    mods()

    def fa(d):
        return program(d, case["a"], case["iv"])()

    def fb(d):
        return program(d, case["b"], case["iv"])()
    with fsenv.scratch() as root:
        first = os.path.join(root, "first")
        os.mkdir(first)
        start(first)
        na, _ = ops_of(fa, first)
        for k in [None] + list(range(na)):
            d = os.path.join(root, "d")
            shutil.copytree(first, d)
            interrupted(fa, d, ("kill", k, 0)) if k is not None else faults.in_child(lambda: fa(d))
            ok, got = t.attempt(f"{case['a']} then {case['b']} batches, killed at {k}", ops_of, fb, d)
            for k2 in [None] + list(range(got[0] if ok else 0)):
                e = os.path.join(root, "e")
                shutil.copytree(d, e)
                if k2 is not None:
                    interrupted(fb, e, ("kill", k2, 0))
                st, info = faults.in_child(lambda: fb(e))
                what = f"{case['a']} then {case['b']} batches, checkpoints every {case['iv']} samples, killed at {k} and {k2}"
                if t.check(st == "ok", f"{what}: ends with {st}: {info[:200]}"):
                    log = os.path.join(e, "logging_rank000")
                    have = len([x for x in os.listdir(log) if x.startswith("batch")])
                    top = max(case["a"], case["b"])
                    t.check(have >= (top if k is None else case["b"]) and have <= top, f"{what}: {have} batches decoded")
                    result(t, e, have, what)
                t.state(k, k2)
                t.trace()
                shutil.rmtree(e)
            shutil.rmtree(d)


def run_ranks(t, case):
    """Processes of one run keep their data, checkpoints and results apart and know how much is left together."""
    m = mods()
    for n, iv in itertools.product((1, 2, 3), (1, 2)):
        with fsenv.scratch() as root:
            start(root)
            for turn in (0, 1):  # a second run has nothing left to encode
                for r in range(case["w"]):
                    def fn():
                        os.chdir(root)
                        m["init"].clear()
                        torch.distributed.get_world_size = lambda *a: case["w"]
                        torch.distributed.get_rank = lambda *a: r
                        enc = importlib.import_module("encode")
                        np.seterr(all="warn")
                        enc.main(settings(n, iv, w=case["w"]))
                        return [(i["id"], i.get("resume")) for i in m["init"]]
                    st, info = faults.in_child(fn)
                    if t.check(st == "ok", f"process {r} of {case['w']}, {n} batches: {st} {info[:200]}"):
                        result(t, root, n, f"process {r} of {case['w']}", rank=r)
                        ids = eval(info)
                        t.check(len(ids) == 1 and ids[0][1] == "allow", f"process {r}: logging run {ids}")
                        t.check(t.__dict__.setdefault("ids", {}).setdefault((root, r), ids[0][0]) == ids[0][0], "a restarted run logs under another id")
                    t.state(n, iv, turn, r)
                    t.trace()
            ids = [v for (rt, _), v in t.__dict__.get("ids", {}).items() if rt == root]
            t.check(len(set(ids)) == len(ids), "two processes log under one id")


def run_vlb(t, case):
    """The bound script reports the mean over every sample of every process, and its terms in order of the step."""
    m = mods()
    W = case["w"]
    vlb = importlib.import_module("compute_vlb")
    for T, b, num in itertools.product((1, 2, 3), (1, 2), range(1, 8)):
        with fsenv.scratch() as root:
            start(root)
            w = world(World(W))
            steps = -(-num // (b * W))
            logs = [[] for _ in range(W)]
            log = sys.modules["improved_diffusion.logger"]
            old = log.logkvs
            log.logkvs = lambda d: logs[w.rank()].append(dict(d))
            m["plots"].clear()

            def load_data(cfg, **k):
                r = w.rank()
                for i in itertools.count():
                    yield torch.tensor([[float(100 * r + 10 * i + j)] for j in range(b)]), {}

            def terms(x, k):
                return torch.stack([x[:, 0] * (k + 1) + T - 1 - i for i in range(T)], 1)  # column i is step T-1-i

            class Diffusion:
                num_timesteps = T

                def calc_bpd_loop(self, model, x, clip_denoised=True, model_kwargs=None):
                    return {"total_bpd": x[:, 0] * 0.5, "prior_bpd": x[:, 0] + 1000, "vb": terms(x, 0), "mse": terms(x, 1), "xstart_mse": terms(x, 2)}

            def one(r):
                cfg = Cfg(data=Cfg(val=Cfg(load_data, data_dir="data", batch_size=b)), model=Cfg(lambda c: Net()), diffusion=Cfg(lambda c: Diffusion()), evaluator=Cfg(model_path=os.path.join(root, "ema_0.9_000003.pt"), num_samples=num, clip_denoised=True))
                vlb.main(cfg)
            cwd = os.getcwd()
            os.chdir(root)
            try:
                res = w.run(one)
            finally:
                os.chdir(cwd)
                log.logkvs = old
            what = f"{W} processes, {T} steps, batch {b}, {num} samples"
            t.state(T, b, num)
            t.trace()
            if not t.check(all(r[0] == "ok" for r in res), f"{what}: {res}"):
                continue
            x = np.array([[100 * r + 10 * i + j for r in range(W) for j in range(b)] for i in range(steps)], dtype=np.float64)
            for r in range(W):
                seen = [d for d in logs[r] if "total_bpd" in d]
                if t.check(len(seen) == steps, f"{what}: process {r} logged {len(seen)} batches, expected {steps}"):
                    for i, d in enumerate(seen):
                        t.check(abs(float(d["total_bpd"]) - 0.5 * x[:i + 1].mean()) < 1e-3 and d["samples"] == (i + 1) * b * W, f"{what}: after batch {i} process {r} logged {d}")
            flat = x.ravel()
            for k, name in enumerate(("vb", "mse", "xstart_mse")):
                want = np.stack([flat * (k + 1) + s for s in range(T)], 1)
                if name == "vb":
                    want = np.concatenate([want, flat[:, None] + 1000], 1)
                f = os.path.join(root, "logging", f"{name}-terms.npz")
                if t.check(os.path.exists(f), f"{what}: {name} terms not saved"):
                    z = np.load(f)
                    for key, v in (("mean", want.mean(0)), ("stdd", want.std(0)), ("min", want.min(0)), ("max", want.max(0))):
                        t.check(z[key].shape == v.shape and np.allclose(z[key], v, atol=1e-3), f"{what}: {name} {key} is {z[key].tolist()}, expected {v.tolist()}")
            t.check(len(m["plots"]) == 1, f"{what}: {len(m['plots'])} processes wrote the plots")


def run_train(t, case):
    """A resumed training run: every process starts from the checkpoint's parameters and averages, at its step."""
    m = mods()
    U = m["util"]
    W = case["w"]
    for have, ema, steps in itertools.product((0, 1), (0, 1), ((3,), (3, 10), (9, 10, 2))):
        with fsenv.scratch() as root:
            for s in steps if have else ():
                torch.save({"w": torch.tensor(float(s))}, os.path.join(root, f"model{s:06d}.pt"))
                if ema:
                    torch.save({"w": torch.tensor(float(s) + 0.5)}, os.path.join(root, f"ema_0.9_{s:06d}.pt"))
            w = world(World(W))

            def one(r):
                net = Net()
                with torch.no_grad():
                    net.w.fill_(0.01 * (r + 1))
                m["f"].LOG.dir = root
                cfg = Cfg(trainer=Cfg(resume_checkpoint=""))
                U.update_checkpoint(cfg, "trainer.resume_checkpoint")
                loop = U.TrainLoop(net, cfg.trainer.resume_checkpoint)
                e = loop._load_ema_parameters(0.9)
                again = loop._load_ema_parameters(0.99)  # no file for this rate
                return float(net.w), loop.resume_step, float(e[0]), float(again[0]), e[0] is not net.w
            res = w.run(one)
            m["f"].LOG.dir = None
            what = f"{W} processes, checkpoints {steps if have else ()}, averages {ema}"
            t.state(have, ema, steps)
            t.trace()
            if t.check(all(r[0] == "ok" for r in res), f"{what}: {res}"):
                last = max(steps)
                p = float(last) if have else 0.01
                want = (p, last if have else 0, last + 0.5 if have and ema else p, p, True)
                for r in range(W):
                    t.check(all(abs(float(a) - float(b)) < 1e-6 for a, b in zip(res[r][1], want)), f"{what}: process {r} starts from {res[r][1]}, expected {want}")
    # shares of a batch
    for x, n in itertools.product(range(0, 13), (1, 2, 3, 4)):
        world(World(n))
        if x % n:
            t.must_raise(f"{x} samples over {n} processes", ValueError, U.divide_by_n_proc, x)
        else:
            ok, v = t.attempt(f"{x} samples over {n} processes", U.divide_by_n_proc, x)
            t.check(ok and v == x // n, f"{x} over {n} gives {v}")
        t.state("div", x, n)
    world(World(1))


def run_case(t, case):
    torch.set_num_threads(1)
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
