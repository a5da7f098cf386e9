"""C38: pretrained entry points and checkpoint loading: every name, option and damaged checkpoint."""
import contextlib
import hashlib
import importlib
import importlib.util
import io
import itertools
import os
import sys
import types
import warnings
from pathlib import Path
import torch
import torch.nn as nn
from . import core, fsenv

PID = "C38"
ASSUMPTIONS = ["the server is replaced by a stand-in that serves, for every file name, its own weights (there is no network); torch.hub's own download and cache code is trusted",
               "the weight comparison runs with reduced latent widths; full-size architectures are compared by the names and shapes of their state (the published files' format at the pinned commit)",
               "VCT checkpoints are as training writes them (coding tables not built yet)",
               "hydra's instantiate and torch.hub.load are stand-ins that record what they are asked for"]
BASE = "https://dl.fbaipublicfiles.com/NeuralCompression/2023-muckley-msillm/"
RATES = {"vlo1": "0.00218", "vlo2": "0.00438", "1": "0.035", "2": "0.07", "3": "0.14", "4": "0.3", "5": "0.45", "6": "0.9"}
ENTRY = {f"msillm_quality_{q}": f"msillm_target_{r}bpp.ckpt" for q, r in RATES.items()}
ENTRY.update({f"noganms_quality_{q}": f"noganms_target_{r}bpp.ckpt" for q, r in RATES.items() if q.isdigit()})
ENTRY["vqvae_xcit_p8_ch64_cb1024_h8"] = "vqvae_xcit_p8_ch64_cb1024_h8.ckpt"
# names and shapes of the published state: number of entries, number of values, digest
ARCH = {"hific": (163, 181481110, "81efb8cf0055b64e"), "vqvae": (282, 18117205, "7eb027ea109cd412")}


def bounds(tier):
    return ("all 15 entry points x library/hub x pretrained default, True and False x histories of two calls; every single missing, renamed and reshaped entry of both full-size checkpoints; illm: all 2^5 key sets with 5 prefixes x 3 ways to "
            "get weights x discriminator/projector options; VCT: wrapped or plain checkpoint x foreign keys x copy x damaged configurations%s" % ("" if tier == "quick" else " (all pairs of entry points in sequence)"))


def cases(tier):
    for n in ENTRY:
        yield {"kind": "entry", "name": n, "pairs": tier != "quick"}
    yield {"kind": "names"}
    for a in ("hific", "vqvae"):
        for part in range(4):
            yield {"kind": "damage", "a": a, "part": part}
    yield {"kind": "prefix"}
    for proj, how in itertools.product((0, 1), ("none", "path", "hub")):
        yield {"kind": "module", "proj": proj, "how": how}
    yield {"kind": "vct"}


def shapes(sd):
    return sorted((k, tuple(v.shape), str(v.dtype)) for k, v in sd.items())


def table(k):
    """Coding tables: their size depends on whether they have been built."""
    return any(x in k for x in ("cdf", "offset", "table"))


def arch(name):
    return "vqvae" if name.startswith("vqvae") else "hific"


@contextlib.contextmanager
def small():
    """Reduced widths wherever the library's autoencoders are built with their published settings."""
    from neuralcompression.models import HiFiCAutoencoder as H, VqVaeXCiTAutoencoder as V
    h, v = H.__init__, V.__init__

    def hi(self, *a, **k):
        k = dict(zip(("in_channels", "latent_features", "hyper_features", "num_residual_blocks"), a)) | k
        h(self, **(k | dict(latent_features=4, hyper_features=4, num_residual_blocks=0)))

    def vi(self, *a, **k):
        v(self, *a, **(k | dict(ch=8)))
    H.__init__, V.__init__ = hi, vi
    try:
        yield
    finally:
        H.__init__, V.__init__ = h, v


class Server:
    """Serves state dicts by URL, at whichever level of torch.hub the code asks."""

    def __init__(self, content):
        self.content, self.log, self.bad = content, [], []

    def get(self, url):
        self.log.append(url)
        if url not in self.content:
            raise OSError(f"no such file on the server: {url}")
        return self.content[url]

    def load(self, url, model_dir=None, map_location=None, *a, **k):
        if str(map_location) != "cpu":
            self.bad.append(f"map_location={map_location}")
        return {n: x.clone() for n, x in self.get(url).items()}

    def download(self, url, dst, *a, **k):
        torch.save(self.get(url), dst)

    def __enter__(self):
        self.old = torch.hub.load_state_dict_from_url, torch.hub.download_url_to_file
        torch.hub.load_state_dict_from_url, torch.hub.download_url_to_file = self.load, self.download
        for n in [n for n in sys.modules if n.startswith("neuralcompression.zoo") or n == "hubconf"]:
            del sys.modules[n]
        self.zoo = importlib.import_module("neuralcompression.zoo")
        spec = importlib.util.spec_from_file_location("hubconf", os.path.join(core.REPO, "hubconf.py"))
        self.hub = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.hub)
        return self

    def __exit__(self, *a):
        torch.hub.load_state_dict_from_url, torch.hub.download_url_to_file = self.old
        for n in [n for n in sys.modules if n.startswith("neuralcompression.zoo")]:
            del sys.modules[n]
        return False

    def fn(self, name, hub):
        return getattr(self.hub, "msillm_" + name if name.startswith("vqvae") else name) if hub else getattr(self.zoo, name)


def weights(model, seed, update=False):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in model.parameters():
            if "quantiles" not in p.shape:
                p.add_(torch.randn(p.shape[:1] if p.dim() else (), generator=g).reshape([-1] + [1] * (p.dim() - 1)) * 0.01 if p.dim() else 0.0)
    if update and hasattr(model, "update"):
        model.update()
    return {k: v.clone() for k, v in model.state_dict().items()}


def same(a, b):
    return set(a) == set(b) and all(a[k].shape == b[k].shape and torch.equal(a[k], b[k]) for k in a)


def run_entry(t, case):
    name = case["name"]
    from neuralcompression.models import HiFiCAutoencoder, VqVaeXCiTAutoencoder
    cls = VqVaeXCiTAutoencoder if name.startswith("vqvae") else HiFiCAutoencoder
    with small(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with Server({}) as s0:
            src = {}
            torch.manual_seed(0)
            blank = {"hific": s0.zoo.msillm_quality_1(), "vqvae": s0.zoo.vqvae_xcit_p8_ch64_cb1024_h8()}
            t.check(not s0.log, "building without weights asks the server")
            for i, (n, f) in enumerate(sorted(ENTRY.items())):
                src[BASE + f] = (arch(n), i)
        todo = [name] + [n for n in ENTRY if n != name] if case["pairs"] else [name, "noganms_quality_3", "msillm_quality_3"]
        content = {}
        for n in dict.fromkeys(todo):
            u = BASE + ENTRY[n]
            a, i = src[u]
            import copy
            content[u] = weights(copy.deepcopy(blank[a]), i, update=bool(i % 2))
        for hub in (False, True):
            with Server(content) as s:
                fn = s.fn(name, hub)
                want = content[BASE + ENTRY[name]]
                for opt in ({"pretrained": True}, {"pretrained": True, "progress": True}) + (({},) if hub else ()):
                    s.log.clear()
                    ok, m = t.attempt(f"{name} hub={hub} {opt}", fn, **opt)
                    if ok:
                        t.check(s.log == [BASE + ENTRY[name]], f"{name} hub={hub} {opt}: asks for {s.log}")
                        t.check(type(m) is cls and same(m.state_dict(), want), f"{name} hub={hub} {opt}: the model does not carry the weights of {ENTRY[name]}")
                        t.check(not s.bad, f"{name}: {s.bad}")
                        with torch.no_grad():
                            for p in m.parameters():
                                p.add_(1.0)
                    t.state(name, hub, str(opt))
                    t.trace()
                for opt in ({"pretrained": False}, {"pretrained": False, "progress": True}) + (() if hub else ({},)):
                    s.log.clear()
                    torch.manual_seed(5)
                    ok, m = t.attempt(f"{name} hub={hub} {opt}", fn, **opt)
                    if ok:
                        t.check(not s.log, f"{name} hub={hub} {opt}: asks for {s.log}")
                        t.check(type(m) is cls and shapes({k: v for k, v in m.state_dict().items() if not table(k)}) == shapes({k: v for k, v in want.items() if not table(k)}), f"{name} hub={hub} {opt}: another architecture")
                    t.state(name, hub, str(opt))
                    t.trace()
                # a later call is not affected by an earlier one
                for other in todo[1:]:
                    s.log.clear()
                    a = s.fn(other, hub)(pretrained=True)
                    b = fn(pretrained=True)
                    t.check(s.log == [BASE + ENTRY[other], BASE + ENTRY[name]], f"{other} then {name}: asks for {s.log}")
                    t.check(same(a.state_dict(), content[BASE + ENTRY[other]]) and same(b.state_dict(), want), f"{other} then {name}: weights mixed up")
                    shared = {p.data_ptr() for p in a.parameters()} & {p.data_ptr() for p in b.parameters()}
                    t.check(not shared, f"{other} and {name} share {len(shared)} parameters")
                    t.state(name, other, hub)
                    t.trace()
                    t.step()
        # codes like the model the weights came from
        if cls is HiFiCAutoencoder:
            with Server(content) as s:
                outs = []
                for k in range(2):
                    m = s.fn(name, False)(pretrained=True) if k else None
                    if m is None:
                        m = copy.deepcopy(blank["hific"])
                        m.load_state_dict(want)
                    m.eval()
                    m.update()
                    m.update_tensor_devices("compress")
                    x = torch.rand(1, 3, 64, 64, generator=torch.Generator().manual_seed(3))
                    outs.append(m.compress(x))
                t.check(outs[0].hyper_strings == outs[1].hyper_strings and outs[0].latent_strings == outs[1].latent_strings if hasattr(outs[0], "hyper_strings") else str(outs[0]) == str(outs[1]), f"{name}: the loaded model codes differently")


def run_names(t, case):
    with Server({}) as s:
        for n in ENTRY:
            t.check(callable(getattr(s.zoo, n, None)), f"{n} is not in the zoo")
            t.check(callable(getattr(s.hub, "msillm_" + n if n.startswith("vqvae") else n, None)), f"{n} is not on the hub")
            with torch.device("meta"):
                ok, m = t.attempt(f"full-size {n}", getattr(s.zoo, n))
            if ok:
                sh = shapes(m.state_dict())
                a = ARCH[arch(n)]
                dig = hashlib.sha256(repr(sh).encode()).hexdigest()[:16]
                t.check((len(sh), sum(v.numel() for v in m.state_dict().values()), dig) == a, f"full-size {n}: state of {len(sh)} entries, digest {dig}, the published file has {a}")
                # an empty server: no silent fallback to random weights
                for hub in (False, True):
                    with torch.device("meta"):
                        t.must_raise(f"{n} hub={hub} with nothing on the server", Exception, s.fn(n, hub), pretrained=True)
            t.state(n)
            t.trace()


def run_damage(t, case):
    name = {"hific": "msillm_quality_2", "vqvae": "vqvae_xcit_p8_ch64_cb1024_h8"}[case["a"]]
    names = [n for n in ENTRY if arch(n) == case["a"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with Server({}) as s, torch.device("meta"):
            good = s.zoo.__dict__[name]().state_dict()
        keys = sorted(good)[case["part"]::4]
        for i, k in enumerate(keys):
            n = names[i % len(names)]
            for how in ("missing", "renamed", "reshaped", "extra"):
                sd = dict(good)
                if how in ("missing", "renamed"):
                    v = sd.pop(k)
                if how == "renamed":
                    sd["module." + k] = v
                if how == "extra":
                    sd[k + "_extra"] = good[k]
                if how == "reshaped":
                    if table(k):
                        continue  # tables legitimately vary in size
                    sd[k] = torch.empty(tuple(good[k].shape) + (2,), device="meta")
                with Server({BASE + ENTRY[n]: sd}) as s, torch.device("meta"):
                    t.must_raise(f"{n} with {how} entry {k}", Exception, s.fn(n, bool(i % 2)), pretrained=True)
                t.state(n, k, how)
                t.trace()
        with Server({BASE + ENTRY[name]: good}) as s, torch.device("meta"):
            t.attempt(f"{name} with an intact file", s.fn(name, False), pretrained=True)


# --- illm ------------------------------------------------------------------

def train_module():
    from . import fakelightning as fl
    return fl.illm("train"), fl


class Net(nn.Module):
    def __init__(self, *keys):
        super().__init__()
        for k in keys:
            cur = self
            *path, last = k.split(".")
            for p in path:
                if p not in cur._modules:
                    cur.add_module(p, nn.Module())
                cur = cur._modules[p]
            cur.register_parameter(last, nn.Parameter(torch.zeros(2)))


def run_prefix(t, case):
    mod, fl = train_module()
    pool = ["model.w", "model.model.w", "modelw", "w", "discriminator.model.w", "model.encoder.0.b"]
    with fsenv.scratch() as root:
        f = os.path.join(root, "x.ckpt")
        for mask in range(1 << len(pool)):
            ks = [k for i, k in enumerate(pool) if mask >> i & 1]
            sd = {k: torch.full((2,), float(pool.index(k) + 1)) for k in ks}
            torch.save({"state_dict": sd, "epoch": 1, "optimizer_states": []}, f)
            for pre in ("model.", "discriminator.", "", "model.model.", "none."):
                want = {k[len(pre):]: v for k, v in sd.items() if k.startswith(pre)}
                ok, got = t.attempt(f"state of {ks} with prefix {pre!r}", *((mod.pretrained_state_dict, f) if pre == "model." else (mod.pretrained_state_dict, f, pre)))
                if ok:
                    t.check(same(dict(got), want), f"state of {ks} with prefix {pre!r}: {sorted(got)} instead of {sorted(want)}")
                t.state(mask, pre)
            net = Net("w", "model.w", "encoder.0.b")
            have = {k[len("model."):] for k in ks if k.startswith("model.")}
            cfg = fl.DictConfig(path=f)
            if have == {"w", "model.w", "encoder.0.b"}:
                ok, r = t.attempt(f"loading {ks}", mod.configure_and_load_state_dict, net, cfg)
                if ok:
                    t.check(same(r.state_dict(), {k: sd["model." + k] for k in have}), f"loading {ks}: {r.state_dict()}")
            else:
                t.must_raise(f"loading incomplete state {ks}", Exception, mod.configure_and_load_state_dict, net, cfg)
            t.trace()
        t.must_raise("missing checkpoint file", Exception, mod.configure_and_load_state_dict, Net("w"), fl.DictConfig(path=os.path.join(root, "no.ckpt")))
        torch.save({"w": torch.zeros(2)}, f)
        t.must_raise("file that is no checkpoint", Exception, mod.configure_and_load_state_dict, Net("w"), fl.DictConfig(path=f))


class Proj(nn.Module):
    def __init__(self, auto):
        super().__init__()
        self.auto = auto
        self.own = nn.Linear(2, 2)


def run_module(t, case):
    """illm build_model and build_module over all options."""
    mod, fl = train_module()
    C = fl.DictConfig
    with fsenv.scratch() as root:
        f1, f2 = os.path.join(root, "a.ckpt"), os.path.join(root, "b.ckpt")
        torch.save({"state_dict": {"model.w": torch.full((2,), 5.0), "junk": torch.zeros(1)}}, f1)
        torch.save({"state_dict": {"model.w": torch.full((2,), 7.0), "loss.w": torch.zeros(1)}}, f2)
        for disc, pre, drop, train in itertools.product((0, 1), ("none", "path", "hub"), (0, 1), (0, 1)):
            made = {}

            class M(fl.LightningModule):
                def __init__(self, **k):
                    super().__init__()
                    made["kw"] = k

            class G(M):
                pass
            mod.TargetRateCompressionModule, mod.GANCompressionModule = M, G
            auto, latent, hubs = Net("w"), Net("w"), []
            hub_models = {}

            def hub_load(repo, model, *a, force_reload=False, **k):
                hubs.append((repo, model))
                hub_models[model] = Net("w")
                hub_models[model].w.data.fill_(9.0)
                return hub_models[model]
            old, torch.hub.load = torch.hub.load, hub_load

            def weight(how, f, name):
                return {"none": None, "path": C(path=f), "hub": C(torchhub=C(github="repo", model=name))}[how]
            dloss, dm, gl, dl, tr = object(), Net("d"), object(), object(), object()
            dist = C(_target_="x") if not drop else C()
            cfg = C(model=lambda: auto, distortion_loss=dist, rate_target=lambda: tr, optimizer=C(a=1), lightning_module=C(distortion_lam=2.0))
            if pre != "none":
                cfg["pretrained_autoencoder"] = weight(pre, f1, "auto")
            if disc:
                cfg["discriminator"] = C(model=lambda: dm, discriminator_loss=lambda: dl, generator_loss=lambda: gl)
            if case["proj"]:
                pr = {}

                def projector(a):
                    pr["p"] = Proj(a)
                    pr["p"].train(bool(train))
                    return pr["p"]
                cfg["latent_projector"] = C(autoencoder=lambda: latent, projector=projector)
            if case["how"] != "none":
                cfg["pretrained_latent_autoencoder"] = weight(case["how"], f2, "latent")
            inst = sys.modules["hydra.utils"].instantiate
            sys.modules["hydra.utils"].instantiate = lambda c, *a, **k: dloss if c is dist else inst(c, *a, **k)
            what = f"discriminator={disc} autoencoder weights={pre} projector={case['proj']} its weights={case['how']}"
            try:
                with warnings.catch_warnings(record=True) as caught:
                    warnings.simplefilter("always")
                    if drop:
                        t.must_raise(f"{what}, no distortion loss", ValueError, mod.build_module, cfg)
                        continue
                    ok, m = t.attempt(what, mod.build_module, cfg)
            finally:
                torch.hub.load = old
                sys.modules["hydra.utils"].instantiate = inst
            t.state(disc, pre, drop, train, case["proj"], case["how"])
            t.trace()
            if not ok:
                continue
            k = made["kw"]
            t.check(type(m) is (G if disc else M), f"{what}: built {type(m).__name__}")
            val = {"none": 0.0, "path": 5.0, "hub": 9.0}[pre]
            t.check(k["model"] is auto and torch.equal(k["model"].w.detach(), torch.full((2,), val)), f"{what}: autoencoder weights {k['model'].w.tolist()}")
            t.check(k["model"].w.requires_grad, f"{what}: the autoencoder is frozen")
            t.check(k["target_rate_config"] is tr and k["distortion_loss"] is dloss and k["optimizer_config"] is cfg.optimizer and k["distortion_lam"] == 2.0, f"{what}: module settings")
            wanthub = [("repo", "auto")] * (pre == "hub")
            if disc:
                t.check(k["discriminator"] is dm and k["discriminator_loss"] is dl and k["generator_loss"] is gl, f"{what}: discriminator settings")
                p = k["latent_projector"]
                if case["proj"]:
                    wanthub = wanthub + [("repo", "latent")] * (case["how"] == "hub")
                    v = {"none": 0.0, "path": 7.0, "hub": 9.0}[case["how"]]
                    t.check(p is pr["p"] and not any(x.training for x in p.modules()) and not any(x.requires_grad for x in p.parameters()), f"{what}: the projector is not frozen in evaluation mode")
                    t.check(torch.equal(p.auto.w.detach(), torch.full((2,), v)), f"{what}: projector weights {p.auto.w.tolist()}")
                    t.check(case["how"] != "none" or any("retrained" in str(c.message) for c in caught), f"{what}: no warning about missing projector weights")
                else:
                    t.check(p is None, f"{what}: projector {p}")
            t.check(hubs == wanthub, f"{what}: hub loads {hubs}")


# --- VCT ----------------------------------------------------------------------

def run_vct(t, case):
    from . import c08, fakelightning as fl
    cl = fl.project("torch_vct", "utils.checkpoint_loaders")
    from datamodules.video_data_api import VideoDataset as VD
    import yaml
    x = c08.clip(1, 2, 32, 32)

    def coded(m):
        with torch.no_grad(), contextlib.redirect_stdout(io.StringIO()):
            *args, bits = m.compress_video(VD(x.clone()), force_cpu=False)
            return m.decompress_video(x.shape, bottleneck_args=args, force_cpu=False), bits
    src = c08.make(2)
    with torch.no_grad():
        for i, p in enumerate(src.parameters()):
            p.mul_(1.0 + 0.01 * (i % 3))
    src.eval()
    sd = {"model." + k: v.clone() for k, v in src.state_dict().items()}  # as training saves it: tables not built
    src.entropy_model.update(force=True)
    want = coded(src)
    with fsenv.scratch() as root:
        good = os.path.join(root, "config.yaml")
        with open(good, "w") as f:
            yaml.safe_dump({"model": {"value": {"a": 1, "b": {"c": 2}}}, "other": 1}, f)
        seen = []

        def inst(c, *a, **k):
            seen.append(c)
            return c08.make(2)
        sys.modules["hydra.utils"].instantiate, old = inst, sys.modules["hydra.utils"].instantiate
        try:
            for wrap, extra, copy_ in itertools.product((0, 1), (0, 1), (0, 1)):
                s = dict(sd)
                if extra:
                    s["loss.model.w"] = torch.zeros(3)
                    s["modelx"] = torch.zeros(1)
                f = os.path.join(root, f"c{wrap}{extra}{copy_}.ckpt")
                torch.save({"state_dict": s, "epoch": 2} if wrap else s, f)
                before = set(os.listdir(root))
                what = f"checkpoint wrapped={wrap} foreign keys={extra} copy={copy_}"
                seen.clear()
                with contextlib.redirect_stderr(io.StringIO()):
                    ok, m = t.attempt(what, cl.load_model_checkpoint_from_config, root, os.path.basename(f), good, **({"save_copy_of_ckpt": True} if copy_ else {}))
                t.state(wrap, extra, copy_)
                t.trace()
                if not ok:
                    continue
                t.check(len(seen) == 1 and dict(seen[0]) == {"a": 1, "b": {"c": 2}}, f"{what}: built from {seen}")
                ps = dict(m.named_parameters())
                t.check(all(torch.equal(p, ps[k]) for k, p in src.named_parameters()), f"{what}: weights differ from the checkpoint")
                t.check(not m.training, f"{what}: not in evaluation mode")
                t.check(not m.entropy_model.update(force=False), f"{what}: the coding tables are not ready")
                ok, got = t.attempt(f"{what}: coding", coded, m)
                if ok:
                    t.check(torch.equal(got[0], want[0]) and list(got[1]) == list(want[1]), f"{what}: codes differently from the model that was saved")
                new = set(os.listdir(root)) - before
                t.check(len(new) == copy_, f"{what}: wrote {sorted(new)}")
                for n in new:
                    t.check(same(torch.load(os.path.join(root, n)), s), f"{what}: the copy differs")
                    os.remove(os.path.join(root, n))
            for k in sorted(sd):
                s = dict(sd)
                del s[k]
                torch.save({"state_dict": s}, os.path.join(root, "bad.ckpt"))
                t.must_raise(f"checkpoint without {k}", Exception, cl.load_model_checkpoint_from_config, root, "bad.ckpt", good)
                t.state("missing", k)
                t.trace()
            torch.save({"state_dict": sd}, os.path.join(root, "ok.ckpt"))
            for bad, text in (("none.yaml", None), ("empty.yaml", ""), ("nomodel.yaml", "other: 1\n"), ("novalue.yaml", "model: {x: 1}\n")):
                if text is not None:
                    Path(root, bad).write_text(text)
                t.must_raise(f"configuration {bad}", FileNotFoundError, cl.load_model_checkpoint_from_config, root, "ok.ckpt", os.path.join(root, bad))
            t.must_raise("missing checkpoint", Exception, cl.load_model_checkpoint_from_config, root, "absent.ckpt", good)
        finally:
            sys.modules["hydra.utils"].instantiate = old


def run_case(t, case):
    torch.set_num_threads(1)
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
