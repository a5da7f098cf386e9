V = "projects/torch_vct/"
PRE = '''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "torch_vct"))
import torch
'''
SEEDS = [
 dict(id="c05_unpatch_transposed_grid", property="C05",
  edits=[(V+"neural/patcher.py", '''            x.reshape(-1, n_patches_H, n_patches_W, self.stride, self.stride, C)
            .permute(0, 5, 1, 3, 2, 4)''', '''            x.reshape(-1, n_patches_H, n_patches_W, self.stride, self.stride, C)
            .permute(*((0, 5, 1, 3, 2, 4) if n_patches_H > 1 else (0, 5, 1, 4, 2, 3)))''')],
  needs="a latent that is only one patch high",
  breaks="patches of one-row latents come back transposed",
  demo=PRE + '''
from neural.patcher import Patcher
for h, w, s in [(8, 8, 4), (4, 8, 4), (4, 4, 4), (3, 9, 4), (12, 4, 4)]:
    p = Patcher(s, "reflect")
    x = torch.arange(2 * 3 * h * w).float().view(2, 3, h, w)
    y = p.unpatch(p(x, s), crop=(h, w), channels_last=True)
    assert torch.equal(x, y), (h, w)
'''),
 dict(id="c06_mean_edge_table", property="C06",
  edits=[(V+"neural/bottlenecks.py", '''        round_mean = torch.round(means)
        outputs = self._entropy_model.decompress(''', '''        round_mean = torch.floor(means + 0.5)
        outputs = self._entropy_model.decompress(''')],
  needs="a mean exactly half way between an even integer and the next one",
  breaks="encoder and decoder round the tie differently, the decoded value is one off",
  demo=PRE + '''
from neural.bottlenecks import GsnConditionalLocScaleShift
b = GsnConditionalLocScaleShift(num_scales=16, num_means=10, min_scale=0.05).eval()
b.update()
for c in [0.0, 0.5, 1.5, 2.5, -0.5, -1.25, 3.75]:
    m = torch.full((1, 4, 4), c)
    x = torch.arange(16).float().view(1, 4, 4) - 7.3
    s = torch.full((1, 4, 4), 1.0)
    q, st = b.compress(x, s, m)
    d = b.decompress(st, s, m)
    assert torch.equal(q, d), c
'''),
 dict(id="c06_force_update_ignored", property="C06",
  edits=[(V+"neural/bottlenecks.py", '''        tail_mass = 2 * lower.reshape(max_length, num_pmfs).T[:, :1]
''', '''        tail_mass = lower.reshape(max_length, num_pmfs).T[:, :1]
        pmf_length = torch.where(pmf_length > 3 * num_scales, pmf_length - 1, pmf_length)
''')],
  needs="a value in the last cell of a table longer than three times the number of scales",
  breaks="the table of very wide distributions loses its last cell, bits of values there no longer match",
  demo=PRE + '''
from neural.bottlenecks import GsnConditionalLocScaleShift
b = GsnConditionalLocScaleShift(num_scales=8, num_means=5, min_scale=0.05, tail_mass=2 ** -8).eval()
b.update()
em = b._entropy_model
for i in range(em._quantized_cdf.shape[0]):
    mi, si = divmod(i, 8)
    mean, scale = em._prior_mean[mi, si].double(), em._prior_scale[mi, si].double()
    n = int(em._cdf_length[i]) - 2
    last = int(em._offset[i]) + n - 1
    tail = 0.5 * torch.erfc((last + 1 - 0.0 - mean) / scale / 2 ** 0.5)
    # everything above the table is at most half the tail mass
    assert float(tail) <= 2 ** -9 + 1e-9, (i, float(tail))
    assert last >= float(mean) + 2.8856 * float(scale) - 1e-3, i
'''),
 dict(id="c07_start_symbol_mask", property="C07",
  edits=[(V+"neural/entropy_model.py", '''                # quantized should contain the mean.
                quantized[:, i - 1, :] = quantized_i.squeeze(0)
''', '''                # quantized should contain the mean.
                quantized[:, i - 1, :] = quantized_i.squeeze(0).clamp(-128, 127)
''')],
  needs="a latent value outside the 8-bit range",
  breaks="the returned latent saturates although the strings encode the real value, and later tokens are predicted from the saturated one",
  demo=PRE + '''
from neural.entropy_model import VCTEntropyModel
from neural.bottlenecks import GsnConditionalLocScaleShift
torch.manual_seed(0)
m = VCTEntropyModel(num_channels=4, context_len=2, window_size_enc=4, window_size_dec=2, num_layers_encoder_sep=1,
    num_layers_encoder_joint=1, num_layers_decoder=1, d_model=8, num_head=2, mlp_expansion=2).eval()
m.bottleneck = GsnConditionalLocScaleShift(num_scales=12, num_means=6, min_scale=0.05)
m.update(force=True)
with torch.no_grad():
    prev = (m.process_previous_latent_q(torch.zeros(1, 4, 4, 4)),)
    for v in (3.2, 40.1, 131.3, -140.2):
        x = torch.full((1, 4, 4, 4), v)
        o = m.compress(latent_unquantized=x, previous_latents=prev, run_decode=False)
        assert torch.equal(o.perturbed_latent, x.round()), v
'''),
 dict(id="c07_diagonal_mask", property="C07",
  edits=[(V+"neural/entropy_model.py", '''        encoded_seqs = [p.processed for p in previous_latents]
''', '''        encoded_seqs = [p.processed for p in previous_latents[: self.context_len - 1]]
        encoded_seqs += [p.processed for p in previous_latents[-1:]]
''')],
  needs="context_len 2 or more and a one-latent history (or any history shorter than the context)",
  breaks="a single previous latent is duplicated before padding, fine for context 2; with context 3 and two previous latents the order changes",
  demo=PRE + '''
from neural.entropy_model import VCTEntropyModel
torch.manual_seed(0)
m = VCTEntropyModel(num_channels=4, context_len=3, window_size_enc=4, window_size_dec=2, num_layers_encoder_sep=1,
    num_layers_encoder_joint=1, num_layers_decoder=1, d_model=8, num_head=2, mlp_expansion=2).eval()
with torch.no_grad():
    a = m.process_previous_latent_q(torch.randn(1, 4, 4, 4).round())
    b = m.process_previous_latent_q(torch.randn(1, 4, 4, 4).round() * 3)
    x = torch.randn(1, 4, 4, 4)
    two = m(x, (a, b))
    three = m(x, (a, a, b))
    assert torch.allclose(two.features, three.features, atol=1e-5)
'''),
 dict(id="c08_context_window_off", property="C08",
  edits=[(V+"model_pipeline.py", '''        new_state = (*state, next_state_entry)
        new_state = new_state[0 - self._context_len :]''', '''        new_state = (*state[-1:], next_state_entry)
        new_state = new_state[0 - self._context_len :]''')],
  needs="a context of three latents and a clip of at least four frames",
  breaks="only two latents are ever kept",
  demo=PRE + '''
import model_pipeline as mp
from neural import transforms as tr
from datamodules.video_data_api import VideoDataset
real = mp.VCTEntropyModel
mp.VCTEntropyModel = lambda *a, **k: real(*a, **{**k, **dict(window_size_enc=4, window_size_dec=2, num_layers_encoder_sep=1, num_layers_encoder_joint=1, num_layers_decoder=1, d_model=8, num_head=2, mlp_expansion=2)})
torch.manual_seed(0)
m = mp.VCTPipeline(tr.ConvGDNAnalysis(4, 4), tr.ConvGDNSynthesis(4, 4), 4, context_len=3).eval()
seen = []
orig = m.entropy_model._get_encoded_seqs
def spy(previous_latents):
    seen.append(len(previous_latents)); return orig(previous_latents)
m.entropy_model._get_encoded_seqs = spy
with torch.no_grad():
    m(VideoDataset(torch.rand(1, 5, 3, 32, 32)))
assert seen == [1, 1, 2, 3, 3], seen
'''),
 dict(id="c08_pad_aspect", property="C08",
  edits=[(V+"model_pipeline.py", '''        pad_h, pad_w = [(factor - (s % factor)) % factor for s in sizes]  # type: ignore''', '''        pad_h, pad_w = [-s % factor if s > 2 * factor else factor - (s % factor or factor) for s in sizes]  # type: ignore
        pad_w = max(pad_w, pad_h * (sizes[0] > sizes[1]))'''),
         ],
  needs="a portrait frame whose height needs more padding than its width",
  breaks="width padded to a wrong size so the latent grid does not match and the reconstruction has the wrong size",
  demo=PRE + '''
import model_pipeline as mp
from neural import transforms as tr
from datamodules.video_data_api import VideoDataset
real = mp.VCTEntropyModel
mp.VCTEntropyModel = lambda *a, **k: real(*a, **{**k, **dict(window_size_enc=4, window_size_dec=2, num_layers_encoder_sep=1, num_layers_encoder_joint=1, num_layers_decoder=1, d_model=8, num_head=2, mlp_expansion=2)})
torch.manual_seed(0)
m = mp.VCTPipeline(tr.ConvGDNAnalysis(4, 4), tr.ConvGDNSynthesis(4, 4), 4).eval()
with torch.no_grad():
    for h, w in [(32, 32), (40, 48), (50, 32), (49, 47)]:
        v = torch.rand(1, 2, 3, h, w)
        p = m._pad(v, (h, w))
        assert p.shape[-2:] == (-(-h // 16) * 16, -(-w // 16) * 16), (h, w, p.shape)
        r, _ = m(VideoDataset(v))
        assert r.shape == v.shape
'''),
 dict(id="c09_kwargs_collide", property="C09",
  edits=[(V+"utils/memoize.py", '''        key = (tuple(key_args), tuple(key_kwargs))
''', '''        key = (tuple(key_args), *[v for _, v in key_kwargs])
''')],
  needs="two calls that pass the same value under different keyword names",
  breaks="the second call gets the result of the first",
  demo=PRE + '''
from utils import memoize
@memoize.memoize
def f(a=1, b=2):
    return (a, b)
g = memoize.bind(f, memoize.create_cache())
assert g(a=5) == (5, 2) and g(b=5) == (1, 5)
'''),
]
