N = "neuralcompression/"
JAX = "projects/jax_entropy_coders/"
BBD = "projects/bits_back_diffusion/"
VCT = "projects/torch_vct/"


def jax_head(mod):
    return f'''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "jax_entropy_coders"))
import fakejax
fakejax.install()
import jax.numpy as jnp
import numpy as np
{mod}
'''


DIFF = '''
import os, sys, types, itertools
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "bits_back_diffusion"))
import numpy as np, torch
import fakecraystack as F
F.install()
class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(0.4))
    def forward(self, x, t):
        return self.w * x + 0.05 * t.reshape(-1, 1, 1, 1).float()
'''

SEEDS = [
 dict(id="c26_pending_bits_narrow", property="C26",
  edits=[(JAX+"jax_arithmetic_coder.py", "    pending_bits = jnp.array(0, dtype=jnp.int32)\n", "    pending_bits = jnp.array(0, dtype=jnp.int8)\n")],
  needs="a run of symbols whose interval keeps straddling the middle, until more than 127 bits are pending",
  breaks="the counter of pending bits wraps around, the bits are never written and the message decodes to something else",
  files=["mc/fakejax.py"],
  demo=jax_head("import jax_arithmetic_coder as J") + '''
import bisect
S = 65536
cl = [0, S // 2 - 1, S // 2 + 1, S]
arr = jnp.array(cl, dtype=jnp.uint32)
def f(s, st):
    s = int(s)
    return st[0][s], st[0][s + 1], st
def g(v, st):
    s = bisect.bisect_right(cl, int(v)) - 1
    return st[0][s], st[0][s + 1], jnp.array(s), st
for n in (3, 8, 12):
    m = [1] * n + [0]
    st = (jnp.stack([arr]),)
    out = J.encode(jnp.array([m], dtype=jnp.uint8), f, st, buffer_oversize=20)
    dec = J.decode([bytes(out[0])], jnp.array([len(m)]), g, st)
    assert [int(v) for v in dec[0]] == m, (n, dec)
'''),
 dict(id="c27_two_refills", property="C27",
  edits=[(JAX+"craystack/_backend.py", "    for _ in range(3):\n", "    for _ in range(2):\n")],
  needs="coding precision above 16 bits and a symbol so rare that its pop has to refill three bytes",
  breaks="the head stays below its minimum after such a pop, so that the message is not restored and later symbols are lost",
  files=["mc/fakejax.py"],
  demo=jax_head("from craystack import _backend as B") + '''
head = jnp.array([0x01FFFFFF, 0xDEADBEEF], dtype="uint32")
tail = B.empty_message((2,), 64).tail
lo, hi = jnp.array([0, 0], dtype="uint32"), jnp.array([1, 3], dtype="uint32")
for p in (8, 16, 24):
    m = B.push_symbols(B.CrayCompressedMessage(head, tail), lo, hi, p)
    cfs = B.peek(m, p)
    r = B.pop_symbols(m, cfs, lo, hi, p)
    assert np.asarray(r.head).tolist() == np.asarray(head).tolist(), (p, np.asarray(r.head))
    assert int(r.tail.pointer[0]) == 64
'''),
 dict(id="c27_refill_at_minimum", property="C27",
  edits=[(JAX+"craystack/_backend.py", "        indices = jnp.less(head, HEAD_MIN)\n", "        indices = jnp.less_equal(head, HEAD_MIN)\n")],
  needs="a head that is exactly at its minimum after a pop",
  breaks="a byte that was never pushed is popped; everything that is decoded afterwards is wrong",
  files=["mc/fakejax.py"],
  demo=jax_head("from craystack import _backend as B") + '''
head = jnp.array([1 << 24], dtype="uint32")
tail = B.empty_message((1,), 64).tail
lo, hi = jnp.array([5], dtype="uint32"), jnp.array([9], dtype="uint32")
m = B.push_symbols(B.CrayCompressedMessage(head, tail), lo, hi, 4)
r = B.pop_symbols(m, B.peek(m, 4), lo, hi, 4)
assert int(r.head[0]) == 1 << 24 and int(r.tail.pointer[0]) == 64, (r.head, r.tail.pointer)
'''),
 dict(id="c28_extra_bytes_once", property="C28",
  edits=[(BBD+"bits_back_diffusion/codec.py", "            if self.data_count == 0:\n                # compute extra bytes needed for encoding\n", "            if self.data_count == 0 and not self.extra_bytes:\n                # compute extra bytes needed for encoding\n")],
  needs="a codec that is decoded until it is empty and then used for other data",
  breaks="the rate that is reported as used counts the bits borrowed for the data of an earlier message",
  files=["mc/fakecraystack.py", "mc/fakelightning.py"],
  demo=DIFF + '''
from bits_back_diffusion import codec as C
S = (1, 1, 1, 2)
def make():
    np.random.seed(0)
    dm = C.DiffusionModel(model=Net().eval(), diffusion=F.GaussianDiffusion(F.betas(4)))
    return C.BitsBackCodec(model=dm, data_shape=S, latent_prec=20, prior_prec=8, obs_prec=12, data_prec=2, initial_len=400)
allx = [np.array(v, dtype=np.int32).reshape(S) for v in itertools.islice(itertools.product(range(4), repeat=2), 0, 16)]
def used(x, first=None):
    c = make()
    if first is not None:
        c.encode(first); c.decode()
    c.encode(x)
    return c.statistics().rate_used
base = {i: used(x) for i, x in enumerate(allx)}
a = min(base, key=base.get)
for i in base:
    assert abs(used(allx[i], allx[a]) - base[i]) < 1e-9, (i, base[i])
'''),
 dict(id="c32_log_floor", property="C32",
  edits=[(N+"functional/_information_content.py", "        natural = torch.log(probabilities)\n", "        natural = torch.log(probabilities.clamp(min=1e-30))\n")],
  needs="a probability below 1e-30, element-wise information content",
  breaks="the information content of very improbable symbols is too small (and an impossible symbol is free of cost to code)",
  files=[],
  demo='''
import torch
from neuralcompression.functional import information_content
p = torch.tensor([[0.5, 1e-35], [1.0, 0.25]])
n = information_content(p, reduction="none")
assert abs(float(n.sum()) - float(information_content(p, reduction="sum"))) < 1e-2, n
assert torch.isinf(information_content(torch.tensor([0.0]), reduction="none")).all()
'''),
 dict(id="c39_resume_step_first_process", property="C39",
  edits=[(BBD+"bits_back_diffusion/script_util.py", '''            self.resume_step = parse_resume_step_from_filename(self.resume_checkpoint)
            if dist.get_rank() == 0:
                logger.log(
                    f"loading model from checkpoint: {self.resume_checkpoint}..."
                )
''', '''            if dist.get_rank() == 0:
                self.resume_step = parse_resume_step_from_filename(
                    self.resume_checkpoint
                )
                logger.log(
                    f"loading model from checkpoint: {self.resume_checkpoint}..."
                )
''')],
  needs="training resumed with at least two processes",
  breaks="all processes but the first count their steps from zero: they stop, save and look for averaged parameters at other steps",
  files=["mc/fakecraystack.py", "mc/fakelightning.py"],
  demo=DIFF + '''
import tempfile
tu = sys.modules["improved_diffusion.train_util"]
class Base:
    def __init__(self, model, resume_checkpoint):
        self.model, self.resume_checkpoint, self.resume_step = model, resume_checkpoint, 0
        self._load_and_sync_parameters()
tu.TrainLoop = Base
tu.find_ema_checkpoint = lambda *a: None
du = sys.modules["improved_diffusion.dist_util"]
du.sync_params = lambda ps: list(ps) and None
du.dev = lambda: "cpu"
from bits_back_diffusion import script_util
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "model000012.pt")
    torch.save(Net().state_dict(), p)
    for r in (0, 1, 2):
        script_util.dist.get_rank = lambda *a: r
        assert script_util.TrainLoop(Net(), p).resume_step == 12, r
'''),
 dict(id="c39_skip_samples", property="C39",
  edits=[(BBD+"encode.py", "            islice(dataloader, codec.data_count, None),\n", "            islice(dataloader, codec.data_count * codec.data_shape[0], None),\n")],
  needs="an encoding run that is interrupted and restarted, batches of more than one sample",
  breaks="the restarted run skips data that was never encoded",
  files=["mc/fakecraystack.py", "mc/fakelightning.py"],
  demo=DIFF + '''
import tempfile
class Cfg(dict):
    def __init__(self, _fn=None, **k):
        super().__init__(**k)
        object.__setattr__(self, "_fn", _fn)
    def __getattr__(self, n):
        if n.startswith("__") or n not in self:
            raise AttributeError(n)
        return self[n]
    def __setattr__(self, n, v):
        self[n] = v
    def __call__(self, *a, **k):
        return self._fn(self, *a, **k)
log = sys.modules["improved_diffusion.logger"]
cur = types.SimpleNamespace(dir=None, output_formats=[])
def configure(dir=None, **k):
    F.LOG.dir = os.path.abspath(dir)
    os.makedirs(F.LOG.dir, exist_ok=True)
    cur.dir = F.LOG.dir
log.configure, log.get_current = configure, lambda: cur
sys.modules["improved_diffusion.dist_util"].load_state_dict = lambda p, **k: torch.load(p, **k)
sys.modules["wandb"].require = lambda *a, **k: None
sys.modules["wandb"].init = lambda *a, **k: types.SimpleNamespace(id="x")
sys.modules["hydra.utils"].to_absolute_path = os.path.abspath
ns = types.SimpleNamespace
hc = ns(run=ns(dir="outputs/job/run"), job=ns(name="job"), overrides=ns(task=["a=1"]))
sys.modules["hydra.core.hydra_config"].HydraConfig = ns(get=lambda: hc)
sys.modules["wandb"].config = ns(update=lambda *a, **k: None)
sys.modules["wandb"].log = lambda *a, **k: None
sys.modules["wandb"].init = lambda **k: ns(log=lambda *a: None, finish=lambda: None)
d_ = torch.distributed
d_.get_rank, d_.get_world_size, d_.barrier = lambda *a: 0, lambda *a: 1, lambda *a, **k: None
from bits_back_diffusion import codec as C
import encode
B, S = 2, (2, 1, 1, 2)
lev = lambda i: np.arange(4).reshape(S) * (i + 1) * 5 % 4
def data(cfg, **k):
    for i in itertools.count():
        yield torch.from_numpy(-1 + 2 * lev(i).astype(np.float64) / 3), {}
def mk(cfg, model=None, **k):
    return C.BitsBackCodec(model=C.DiffusionModel(**model), data_shape=S, latent_prec=12, prior_prec=4, obs_prec=12, data_prec=2, initial_len=80)
def cfg(n):
    return Cfg(data=Cfg(val=Cfg(data, data_dir="data", batch_size=B)), model=Cfg(lambda c: Net()), diffusion=Cfg(lambda c: F.GaussianDiffusion(F.betas(2))), codec=Cfg(mk),
               evaluator=Cfg(model_path="ema_0.9_000003.pt", num_samples=n * B, clip_denoised=True), encode_checkpoint=None, decode_checkpoint=None, check=n == 3, save_interval=1)
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    torch.save(Net().state_dict(), "ema_0.9_000003.pt")
    encode.main(cfg(1))
    encode.main(cfg(3))
    os.chdir("/")
'''),
 dict(id="c40_analysis_frames_interleaved", property="C40",
  edits=[(VCT+"neural/transforms.py", '''        embeddings = self.transforms(video_frames.reshape(-1, *video_frames.shape[2:]))
        return embeddings.reshape(*video_frames.shape[:2], *embeddings.shape[1:])
''', '''        embeddings = self.transforms(torch.cat(video_frames.unbind(1)))
        return embeddings.reshape(*video_frames.shape[:2], *embeddings.shape[1:])
''')],
  needs="at least two clips of at least two frames in a batch",
  breaks="the embeddings of the frames of different clips are exchanged",
  files=[],
  demo='''
import os, sys, torch
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "torch_vct"))
from neural.transforms import ConvGDNAnalysis
torch.manual_seed(0)
m = ConvGDNAnalysis(4, 6).eval()
x = torch.rand(2, 3, 3, 32, 48)
with torch.no_grad():
    y = m(x)
    for b in range(2):
        for t in range(3):
            assert torch.allclose(m(x[b:b+1, t:t+1])[0, 0], y[b, t], atol=1e-5), (b, t)
'''),
 dict(id="c40_chunk_order", property="C40",
  edits=[(VCT+"neural/transforms.py", '''            assert (B * T) % self._max_frames == 0, "Can't reshape!"
            f = (B * T) // self._max_frames
            x = x.reshape(f, self._max_frames, C, H, W)
            x = torch.stack([self.transforms(chunk) for chunk in x], dim=0)
''', '''            assert (B * T) % self._max_frames == 0, "Can't reshape!"
            f = (B * T) // self._max_frames
            x = x.reshape(self._max_frames, f, C, H, W).transpose(0, 1)
            x = torch.stack([self.transforms(chunk) for chunk in x], dim=0)
''')],
  needs="frames decoded in more than one chunk of more than one frame",
  breaks="the frames of the reconstruction come in another order",
  files=[],
  demo='''
import os, sys, torch
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "torch_vct"))
from neural.transforms import ELICSynthesis
torch.manual_seed(0)
x = torch.rand(1, 4, 4, 2, 3)
for k in (1, 2, 4):
    torch.manual_seed(1)
    m = ELICSynthesis(1, [4, 4, 4, 3], max_frames=k).eval()
    with torch.no_grad():
        y = m(x, torch.Size((1, 4, 3, 32, 48)))
        for t in range(4):
            assert torch.allclose(m(x[:, t:t+1], torch.Size((1, 1, 3, 32, 48)))[0, 0], y[0, t], atol=1e-5), (k, t)
'''),
]
