"""Stand-ins for craystack (numpy rANS), improved_diffusion, wandb and plotly.

None of them is installed here.  The rANS stack, the codecs and bits-back
combinator follow the published craystack interface; the diffusion follows the
standard Gaussian diffusion equations.  The project's own tests run unchanged
on them (see C28's `own` case).
"""
import sys
import types
from collections import namedtuple

import numpy as np
import torch
from scipy.stats import norm as _norm

RANS_L = 1 << 31
Codec = namedtuple("Codec", ["push", "pop"])


def u64(x):
    return np.asarray(x).astype(np.uint64)


def _stack_slice(stack, n):
    out = []
    while n > 0:
        if not stack:
            raise IndexError("popped from an empty message")
        arr, stack = stack
        if n >= len(arr):
            out.append(arr)
            n -= len(arr)
        else:
            out.append(arr[:n])
            stack = (arr[n:], stack)
            n = 0
    return stack, np.concatenate(out)


def rpush(message, starts, freqs, prec):
    head, tail = message
    starts, freqs, prec = u64(starts), u64(freqs), np.uint64(prec)
    starts, freqs = np.broadcast_to(starts, head.shape), np.broadcast_to(freqs, head.shape)
    assert np.all(freqs > 0), "symbol of zero probability"
    big = head >= ((np.uint64(RANS_L) >> prec) << np.uint64(32)) * freqs
    if big.any():
        tail = (head[big].astype(np.uint32), tail)
        head = head.copy()
        head[big] >>= np.uint64(32)
    q, r = np.divmod(head, freqs)
    return (q << prec) + r + starts, tail


def rpop(message, prec):
    head_, tail_ = message
    prec = np.uint64(prec)
    cfs = head_ & ((np.uint64(1) << prec) - np.uint64(1))

    def finish(starts, freqs):
        starts, freqs = np.broadcast_to(u64(starts), head_.shape), np.broadcast_to(u64(freqs), head_.shape)
        head = freqs * (head_ >> prec) + cfs - starts
        low = head < RANS_L
        tail = tail_
        if low.any():
            tail, new = _stack_slice(tail_, int(low.sum()))
            head[low] = (head[low] << np.uint64(32)) | new.astype(np.uint64)
        return head, tail
    return cfs, finish


def flatten(message):
    head, tail = np.ravel(message[0]), message[1]
    out = [(head >> np.uint64(32)).astype(np.uint32), head.astype(np.uint32)]
    while tail:
        arr, tail = tail
        out.append(arr)
    return np.concatenate(out)


def unflatten(arr, shape):
    n = int(np.prod(shape))
    head = arr[:n].astype(np.uint64) << np.uint64(32) | arr[n:2 * n].astype(np.uint64)
    return np.reshape(head, shape), (arr[2 * n:], ())


def random_message(flat_len, shape, rng=np.random):
    n = int(np.prod(shape))
    arr = rng.randint(0, 1 << 32, size=max(flat_len, 2 * n), dtype=np.uint32)
    arr[:n] = arr[:n] & np.uint32(0x7FFFFFFF) | np.uint32(1)   # heads in the rANS interval
    return unflatten(arr, shape)


def base_message(shape, randomize=False):
    head = np.full(shape, RANS_L, np.uint64)
    if randomize:
        head = head + np.random.randint(0, RANS_L, size=shape).astype(np.uint64)
    return head, ()


def message_equal(a, b):
    return a[0].shape == b[0].shape and np.array_equal(flatten(a), flatten(b))


def NonUniform(enc, dec, prec):
    def push(message, symbol):
        start, freq = enc(symbol)
        return rpush(message, start, freq, prec),

    def pop(message):
        cf, fin = rpop(message, prec)
        s = dec(cf)
        start, freq = enc(s)
        assert np.all(start <= cf) and np.all(cf < start + freq), "statfuns disagree"
        return fin(start, freq), s
    return Codec(push, pop)


def Uniform(prec):
    def push(message, symbol):
        return rpush(message, symbol, 1, prec),

    def pop(message):
        cf, fin = rpop(message, prec)
        return fin(cf, 1), cf
    return Codec(push, pop)


def substack(codec, view_fun):
    def push(message, data, *a, **k):
        head, tail = message
        (sub, tail), = codec.push((view_fun(head), tail), data, *a, **k)
        return (update(head, sub), tail),

    def pop(message, *a, **k):
        head, tail = message
        (sub, tail), data = codec.pop((view_fun(head), tail), *a, **k)
        return (update(head, sub), tail), data

    def update(head, sub):
        idx = view_fun(np.arange(head.size).reshape(head.shape))
        new = head.copy().ravel()
        new[np.ravel(idx)] = np.ravel(sub)
        return new.reshape(head.shape)
    return Codec(push, pop)


def _nearest_uint(x):
    return np.rint(x).astype(np.uint64)


def _cdf_to_enc_statfun(cdf):
    def enc(s):
        lo = cdf(s)
        return lo, cdf(s + 1) - lo
    return enc


def _cumulative_buckets_from_probs(probs, prec):
    p = np.rint(probs * (1 << prec)).astype(np.int64)
    p[p == 0] = 1
    i = np.argmax(p, axis=-1)[..., None]
    top = np.take_along_axis(p, i, -1)
    d = (1 << prec) - p.sum(-1, keepdims=True)
    assert not np.any(top + d <= 0), "cannot rebalance buckets, consider increasing precision"
    np.put_along_axis(p, i, top + d, -1)
    return np.concatenate((np.zeros(p.shape[:-1] + (1,), np.uint64), np.cumsum(p, -1).astype(np.uint64)), -1)


def _cdf_from_cumulative_buckets(c):
    def cdf(s):
        s = np.asarray(s).astype(np.int64)
        return np.take_along_axis(c, s[..., None], -1)[..., 0]
    return cdf


def _ppf_from_cumulative_buckets(c):
    n = c.shape[-1]

    def ppf(cf):
        return np.array([np.searchsorted(b, v, "right") - 1 for b, v in zip(c.reshape(-1, n), np.ravel(cf))]).reshape(cf.shape)
    return ppf


def std_gaussian_centres(prec):
    return np.float32(_norm.ppf((np.arange(1 << prec) + 0.5) / (1 << prec)))


def DiagGaussian_GaussianBins(mean, stdd, bin_mean, bin_stdd, coding_prec, bin_prec):
    n = 1 << bin_prec
    edges = _norm.ppf(np.arange(n + 1) / n)
    edges = bin_mean[..., None] + edges * bin_stdd[..., None]
    c = _norm.cdf(edges, np.asarray(mean)[..., None], np.asarray(stdd)[..., None])
    c[..., 0], c[..., -1] = 0, 1
    buckets = _cumulative_buckets_from_probs(c[..., 1:] - c[..., :-1], coding_prec)
    return NonUniform(_cdf_to_enc_statfun(_cdf_from_cumulative_buckets(buckets)), _ppf_from_cumulative_buckets(buckets), coding_prec)


def BBANS(prior, likelihood, posterior):
    def push(message, data):
        message, latent = posterior(data).pop(message)
        message, = likelihood(latent).push(message, data)
        message, = prior.push(message, latent)
        return message,

    def pop(message):
        message, latent = prior.pop(message)
        message, data = likelihood(latent).pop(message)
        message, = posterior(data).push(message, latent)
        return message, data
    return Codec(push, pop)


def check_codec(shape, codec, data):
    m = base_message(shape)
    for _ in range(2):
        head, tail = m
        m2, = codec.push((head.copy(), tail), data)
        m3, d = codec.pop(m2)
        assert message_equal(m, m3)
        np.testing.assert_equal(data, d)
        m = m2


class GaussianDiffusion:
    """Gaussian diffusion with given betas and a fixed (posterior) variance."""

    def __init__(self, betas, **k):
        self.betas = np.asarray(betas, np.float64)
        a = 1 - self.betas
        self.num_timesteps = len(betas)
        self.ac = np.cumprod(a)
        self.acp = np.append(1.0, self.ac[:-1])
        self.pv = self.betas * (1 - self.acp) / (1 - self.ac)
        self.pv_clipped = np.append(self.pv[1] if len(betas) > 1 else self.betas[0], self.pv[1:])
        self.c1 = self.betas * np.sqrt(self.acp) / (1 - self.ac)
        self.c2 = (1 - self.acp) * np.sqrt(a) / (1 - self.ac)

    def _ex(self, arr, t, shape):
        v = torch.from_numpy(np.asarray(arr))[t].float()
        return v.reshape(-1, *[1] * (len(shape) - 1)).expand(shape)

    def q_mean_variance(self, x_start, t):
        s = x_start.shape
        return self._ex(np.sqrt(self.ac), t, s) * x_start, self._ex(1 - self.ac, t, s), self._ex(np.log(1 - self.ac), t, s)

    def q_posterior_mean_variance(self, x_start, x_t, t):
        s = x_t.shape
        return self._ex(self.c1, t, s) * x_start + self._ex(self.c2, t, s) * x_t, self._ex(self.pv, t, s), self._ex(np.log(self.pv_clipped), t, s)

    def p_mean_variance(self, model, x, t, clip_denoised=True, model_kwargs=None, **k):
        eps = model(x, t)
        s = x.shape
        x0 = (x - self._ex(np.sqrt(1 - self.ac), t, s) * eps) / self._ex(np.sqrt(self.ac), t, s)
        if clip_denoised:
            x0 = x0.clamp(-1, 1)
        mean, _, _ = self.q_posterior_mean_variance(x0, x, t)
        large = np.append(self.pv_clipped[0], self.betas[1:])
        var, logvar = self._ex(large, t, s), self._ex(np.log(large), t, s)
        return {"mean": mean, "variance": var, "log_variance": logvar, "pred_xstart": x0}


def betas(steps):
    return np.linspace(0.05, 0.6, steps) if steps > 1 else np.array([0.5])


class Logger:
    def __init__(self):
        self.dir = None
        self.lines = []

    def get_dir(self):
        return self.dir

    def log(self, *a):
        self.lines.append(a)

    def logkvs(self, d):
        self.lines.append(d)

    def dumpkvs(self):
        pass


LOG = Logger()


def install():
    if "improved_diffusion" in sys.modules:
        return
    try:
        from . import fakelightning
    except ImportError:  # imported as a plain module
        import fakelightning
    fakelightning.install()

    def mod(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        sys.modules[name] = m
        return m
    rans = mod("craystack.rans", push=rpush, pop=rpop, flatten=flatten, unflatten=unflatten, message_equal=message_equal, base_message=base_message, random_message=random_message)
    bb = mod("craystack.bb_ans", BBANS=BBANS)
    names = dict(Codec=Codec, NonUniform=NonUniform, Uniform=Uniform, substack=substack, std_gaussian_centres=std_gaussian_centres, DiagGaussian_GaussianBins=DiagGaussian_GaussianBins)
    codecs = mod("craystack.codecs", norm=_norm, _cumulative_buckets_from_probs=_cumulative_buckets_from_probs, _cdf_to_enc_statfun=_cdf_to_enc_statfun,
                 _cdf_from_cumulative_buckets=_cdf_from_cumulative_buckets, _ppf_from_cumulative_buckets=_ppf_from_cumulative_buckets, _nearest_uint=_nearest_uint, **names)
    ct = mod("craystack.codecs_test", check_codec=check_codec)
    cs = mod("craystack", rans=rans, vrans=rans, bb_ans=bb, codecs=codecs, codecs_test=ct, flatten=flatten, unflatten=unflatten, random_message=random_message, base_message=base_message, BBANS=BBANS, **names)
    cs.__path__ = []
    gd = mod("improved_diffusion.gaussian_diffusion", GaussianDiffusion=GaussianDiffusion, get_named_beta_schedule=lambda n, s: np.linspace(1e-4 * 1000 / s, 0.02 * 1000 / s, s))
    for e, vals in (("LossType", ("RESCALED_KL", "RESCALED_MSE", "MSE")), ("ModelMeanType", ("EPSILON", "START_X")), ("ModelVarType", ("FIXED_LARGE", "FIXED_SMALL", "LEARNED_RANGE"))):
        gd.__dict__[e] = types.SimpleNamespace(**{v: v for v in vals})

    class Spaced(GaussianDiffusion):
        def __init__(self, use_timesteps, betas, **k):
            self.use_timesteps = set(use_timesteps)
            ac, last, new = np.cumprod(1 - np.asarray(betas)), 1.0, []
            for i, a in enumerate(ac):
                if i in self.use_timesteps:
                    new.append(1 - a / last)
                    last = a
            self.kw = k
            super().__init__(new)
    res = mod("improved_diffusion.respace", SpacedDiffusion=Spaced)
    log = mod("improved_diffusion.logger", KVWriter=object, get_dir=LOG.get_dir, log=LOG.log, logkvs=LOG.logkvs, dumpkvs=LOG.dumpkvs, configure=lambda **k: None, get_current=lambda: None)
    tu = mod("improved_diffusion.train_util", TrainLoop=object, find_ema_checkpoint=lambda *a: None)
    du = mod("improved_diffusion.dist_util", setup_dist=lambda: None, dev=lambda: torch.device("cpu"), sync_params=lambda p: None)
    imp = mod("improved_diffusion", gaussian_diffusion=gd, respace=res, logger=log, train_util=tu, dist_util=du)
    imp.__path__ = []
    mod("wandb", log=lambda *a, **k: None, Image=object)
    go = mod("plotly.graph_objs", Scatter=lambda **k: k, Figure=lambda *a: types.SimpleNamespace(update_layout=lambda **k: None))
    pl = mod("plotly", graph_objs=go)
    pl.__path__ = []
    hyd = sys.modules["hydra"]
    hyd.main = lambda **k: (lambda f: f)
    hyd.__path__ = []
    hc = mod("hydra.core.hydra_config", HydraConfig=object)
    mod("hydra.core", hydra_config=hc).__path__ = []
    sys.modules["hydra.utils"].to_absolute_path = lambda p: str(p)
    om = sys.modules["omegaconf"].OmegaConf
    om.register_new_resolver = staticmethod(lambda *a, **k: None)

    def select(cfg, key):
        for k in key.split("."):
            cfg = cfg.get(k) if cfg is not None else None
        return cfg

    def update(cfg, key, value):
        ks = key.split(".")
        for k in ks[:-1]:
            cfg = cfg[k]
        cfg[ks[-1]] = value
    om.select, om.update = staticmethod(select), staticmethod(update)
