N = "neuralcompression/"
SEEDS = [
 dict(id="c10_hits_lost_duplicates", property="C10",
  edits=[(N+"layers/_vq_bottleneck.py", '''        getattr(self, f"codebook_hits_{0}").index_add_(
            0, vq_output.indices, torch.ones_like(vq_output.indices, dtype=torch.long)
        )
''', '''        hits = getattr(self, f"codebook_hits_{0}")
        used, counts = torch.unique_consecutive(vq_output.indices, return_counts=True)
        hits[used] += counts
''')],
  needs="a codeword chosen in two separate runs of positions within one batch",
  breaks="usage counters lose hits of codewords that occur in more than one run",
  demo='''
import torch
from neuralcompression import VqVaeAutoencoderOutput
from neuralcompression.layers import VQBottleneck
b = VQBottleneck(4, 3)
b.codebooks[0].data = torch.eye(4, 3) + torch.tensor([[0.0] * 3] * 3 + [[-1.0] * 3])
x = torch.eye(3)[[0, 1, 0, 2, 0]].t().reshape(1, 3, 1, 5)
b(VqVaeAutoencoderOutput(latent=x))
assert b.codebook_hits_0.tolist() == [3, 1, 1, 0], b.codebook_hits_0
'''),
 dict(id="c10_nearest_by_dot", property="C10",
  edits=[(N+"layers/_q_bottleneck.py", '''        distances = torch.sum(
            (codebook.unsqueeze(0) - latents.unsqueeze(1)) ** 2, dim=2
        )
''', '''        distances = torch.sum(latents**2, dim=1, keepdim=True) - 2 * (
            latents @ codebook.t()
        ) + 1.0
''')],
  needs="a codebook that is not normalised (normalize_codebook=False)",
  breaks="the nearest codeword is chosen by inner product, long codewords win",
  demo='''
import torch
from neuralcompression.layers._q_bottleneck import QBottleneck
b = QBottleneck([2], [2], normalize_codebook=False)
cb = torch.tensor([[0.5, 0.0], [5.0, 0.0]])
o = b.quantize_vectors(torch.tensor([0.6, 0.0]).reshape(1, 2, 1, 1), cb)
assert o.indices.tolist() == [0]
'''),
 dict(id="c11_projector_truthy_mode", property="C11",
  edits=[(N+"models/_vqvae_projector.py", '''        return super().train(False)
''', '''        if self.training == bool(mode):
            return self
        return super().train(False)
''')],
  needs="a submodule of the projector put into training mode, then train(False) on the projector",
  breaks="train(False)/eval() no longer reaches submodules because the projector already claims to be in evaluation mode",
  demo='''
import torch
from neuralcompression.models import VqVaeProjector, VqVaeXCiTAutoencoder
import inspect
m = VqVaeXCiTAutoencoder(ch=32, ch_mult=(1, 1), num_res_blocks=1, resolution=16, attn_resolutions=[8], embed_dim=8, norm_type="group") if "ch" in inspect.signature(VqVaeXCiTAutoencoder.__init__).parameters else None
import torch.nn as nn
class E(nn.Module):
    pass
class V:
    encoder = nn.Sequential(nn.Conv2d(3, 4, 1), nn.BatchNorm2d(4))
    bottleneck_op = nn.Identity()
p = VqVaeProjector(V())
V.encoder.train()
p.eval()
assert not any(q.training for q in p.modules())
'''),
 dict(id="c12_fid_compacts_on_compute", property="C12",
  edits=[(N+"metrics/_fid.py", '''    def compute(self) -> Tensor:
        return _compute_fid_from_features(
''', '''    def compute(self) -> Tensor:
        if len(self.real_features) > 2 and isinstance(self.real_features, list):
            # keep one block instead of many small ones
            self.real_features[1:] = [torch.cat(self.real_features[1:-1])]
        return _compute_fid_from_features(
''')],
  needs="three or more updates with real images",
  breaks="the last block of real features is dropped when the value is computed",
  demo='''
import torch
import neuralcompression.metrics._fid as F
class Net(torch.nn.Module):
    def __init__(self, *a, **k):
        super().__init__()
    def forward(self, x):
        return x.float().flatten(1)[:, :4]
F.NoTrainInceptionV3 = Net
torch.manual_seed(0)
r, f = torch.randint(0, 256, (8, 3, 4, 4), dtype=torch.uint8), torch.randint(0, 256, (8, 3, 4, 4), dtype=torch.uint8)
def value(n):
    m = F.FrechetInceptionDistance()
    for a, b in zip(r.chunk(n), f.chunk(n)):
        m.update(a, real=True); m.update(b, real=False)
    return float(m.compute())
assert abs(value(1) - value(4)) < 1e-6 * value(1), (value(1), value(4))
'''),
 dict(id="c12_dists_total_scalar", property="C12",
  edits=[(N+"metrics/_dists.py", '''        loss = self.net(img1, img2).squeeze()
        self.sum_scores += loss.sum()
        self.total += img1.shape[0]
''', '''        loss = self.net(img1, img2).squeeze()
        self.sum_scores += loss.sum()
        self.total += max(loss.shape, default=0) or len(loss.shape)
''')],
  needs="an update with exactly one image",
  breaks="single-image updates do not count towards the mean",
  demo='''
import torch
import neuralcompression.metrics._dists as D
class Net(torch.nn.Module):
    def forward(self, a, b):
        return (a - b).abs().mean(dim=(1, 2, 3))
D.NoTrainDists = Net
m = D.DeepImageStructureTextureSimilarity()
torch.manual_seed(0)
x, y = torch.rand(3, 3, 8, 8), torch.rand(3, 3, 8, 8)
m.update(x, y); want = m.compute(); m.reset()
for i in range(3):
    m.update(x[i:i + 1], y[i:i + 1])
assert torch.isclose(m.compute(), want), (m.compute(), want)
'''),
 dict(id="c13_shift_boundary", property="C13",
  edits=[(N+"metrics/_update_patch_fid.py", '''    if num_y >= 1.5 * patch_size and num_x >= 1.5 * patch_size:
''', '''    if num_y - patch_size // 2 >= patch_size and num_x - patch_size // 2 > patch_size:
''')],
  needs="an image whose width is exactly one and a half patches",
  breaks="the shifted grid is skipped at the boundary width",
  demo='''
import torch
from neuralcompression.metrics import update_patch_fid
class M:
    n = 0
    def update(self, x, real):
        self.n += x.shape[0]
m = M()
x = torch.zeros(1, 3, 12, 12)
assert update_patch_fid(x, x, fid_metric=m, patch_size=8) == 2
'''),
 dict(id="c14_msssim_channel_weight", property="C14",
  edits=[(N+"functional/_multiscale_structural_similarity.py", '''    ssim = (luminance * contrast_structure).view(batch_size, -1).mean(dim=1)
''', '''    ssim = luminance.view(batch_size, -1).mean(dim=1)
    ssim = ssim * contrast_structure.view(batch_size, -1).mean(dim=1)
''')],
  needs="images whose luminance and contrast errors vary over the image at the coarsest scale",
  breaks="the mean of the product becomes the product of the means",
  demo='''
import torch
from neuralcompression.functional import multiscale_structural_similarity as f
from neuralcompression.functional._multiscale_structural_similarity import _gaussian_window
import torch.nn.functional as F
torch.manual_seed(0)
x = torch.rand(1, 1, 12, 12, dtype=torch.double) * torch.linspace(0, 1, 12, dtype=torch.double)
y = x.clone(); y[..., :6] = torch.rand(1, 1, 12, 6, dtype=torch.double)
w = _gaussian_window(3, 1.5, dtype=torch.double)
c = lambda a: F.conv2d(a, w)
ux, uy = c(x), c(y)
l = (2 * ux * uy + 1e-4) / (ux ** 2 + uy ** 2 + 1e-4)
s = (2 * (c(x * y) - ux * uy) + 9e-4) / (c(x * x) - ux ** 2 + c(y * y) - uy ** 2 + 9e-4)
assert torch.isclose(f(x, y, window_size=3, power_factors=[1.0]), (l * s).mean())
'''),
 dict(id="c15_prob_wrong_side", property="C15",
  edits=[(N+"distributions/_uniform_noise.py", '''        return torch.where(
            survival_function_positive < cdf_positive,
            survival_function_negative - survival_function_positive,
            cdf_positive - cdf_negative,
        )
''', '''        return torch.where(
            survival_function_positive < cdf_negative,
            survival_function_negative - survival_function_positive,
            torch.clamp_max(cdf_positive, 1.0 - 2**-7) - cdf_negative,
        )
''')],
  needs="a narrow base distribution whose whole mass lies within one cell",
  breaks="the central cell of narrow distributions loses up to 1/128 of its mass",
  demo='''
import torch
from torch.distributions import Normal
from neuralcompression.distributions import UniformNoise
for s in (0.01, 0.1, 1.0, 3.0):
    d = UniformNoise(Normal(torch.tensor(0.0), torch.tensor(s)))
    p = d.prob(torch.arange(-20, 21).float())
    assert abs(float(p.sum()) - 1) < 1e-5, (s, float(p.sum()))
'''),
 dict(id="c16_log_expm1_cutoff", property="C16",
  edits=[(N+"functional/_log_expm1.py", '''        torch.log(torch.expm1(torch.minimum(x, torch.tensor(15.0)))),
''', '''        torch.log(torch.exp(torch.minimum(x, torch.tensor(15.0))) - 1),
''')],
  needs="a very small argument (below about 1e-4)",
  breaks="cancellation: the result is off or -inf for small arguments",
  demo='''
import math, torch
from neuralcompression.functional import log_expm1
for v in (1e-9, 1e-6, 1e-3, 1.0, 14.9, 15.1, 80.0):
    w = math.log(math.expm1(v)) 
    assert abs(float(log_expm1(torch.tensor(v))) - w) < 1e-4 * max(1, abs(w)), v
'''),
 dict(id="c16_upper_tail_mass", property="C16",
  edits=[(N+"functional/_upper_tail.py", '''                math.log(tail_mass / 2),
''', '''                math.log1p(-1 + tail_mass) - math.log1p(1 - tail_mass**2),
''')],
  needs="a distribution without an inverse CDF and a tail mass that is not tiny",
  breaks="the upper tail is searched at tail_mass / (2 - tail_mass**2)",
  demo='''
import torch
from torch.distributions import Normal
from neuralcompression.functional import upper_tail
class D(Normal):
    def icdf(self, v):
        raise NotImplementedError
d = D(torch.zeros(2), torch.ones(2))
for m in (0.01, 0.3, 0.8):
    x = upper_tail(d, m)
    assert torch.allclose(1 - d.cdf(x), torch.full((2,), m / 2), rtol=2e-2), (m, 1 - d.cdf(x))
'''),
 dict(id="c17_quantize_offset_order", property="C17",
  edits=[(N+"layers/_continuous_entropy.py", '''        for index, (pmf, pmf_size) in enumerate(zip(pmfs, pmf_sizes)):
            pmf = pmf[:pmf_size]
''', '''        longest = int(pmf_sizes.max())
        for index, (pmf, pmf_size) in enumerate(zip(pmfs, pmf_sizes)):
            pmf = pmf[: pmf_size if pmf_size > longest // 4 else longest]
''')],
  needs="priors whose supports differ by a factor of four or more in one layer",
  breaks="the table of the narrow distribution is longer than its declared size",
  demo='''
import torch
from torch.distributions import Normal
from neuralcompression.layers import ContinuousEntropy
from neuralcompression.distributions import NoisyNormal
l = ContinuousEntropy(compressible=True, prior=NoisyNormal(loc=torch.zeros(2), scale=torch.tensor([0.3, 30.0])), coding_rank=1)
for i in range(2):
    n = int(l.cdf_sizes[i])
    assert int(l.cdfs[i, n - 1]) == 1 << 12 and not l.cdfs[i, n:].any(), (i, n)
'''),
 dict(id="c18_gdn_beta_detached", property="C18",
  edits=[(N+"layers/_simplified_gdn.py", '''        return image * F.conv2d(torch.abs(image), self.gamma, self.beta)
''', '''        if image.shape[-2:] == (1, 1):
            # same product without the convolution
            norm = torch.abs(image).flatten(1) @ self.gamma.flatten(1)
            return image * (norm + self.beta)[..., None, None]
        return image * F.conv2d(torch.abs(image), self.gamma, self.beta)
''')],
  needs="a 1x1 feature map and a gamma that is not symmetric",
  breaks="the channel mixing matrix is applied transposed",
  demo='''
import torch
from neuralcompression.layers import SimplifiedInverseGDN
m = SimplifiedInverseGDN(2)
m.gamma.data = torch.tensor([[0.1, 0.7], [0.0, 0.2]]).reshape(2, 2, 1, 1)
x = torch.tensor([1.0, -2.0]).reshape(1, 2, 1, 1)
a = m(x)
b = m(x.expand(1, 2, 2, 2))
assert torch.allclose(a, b[..., :1, :1]), (a, b)
'''),
 dict(id="c18_lower_bound_strict", property="C18",
  edits=[(N+"functional/_lower_bound.py", '''        return (((x >= bound) | (y < 0)) * y), None, None
''', '''        return (((x > bound) | (y < 0)) * y), None, None
''')],
  needs="a value exactly on the bound with a positive gradient",
  breaks="values exactly at the bound get no gradient",
  demo='''
import torch
from neuralcompression.functional import lower_bound
x = torch.tensor([0.5, 1.0, 2.0], requires_grad=True)
lower_bound(x, torch.tensor(1.0)).sum().backward()
assert x.grad.tolist() == [0.0, 1.0, 1.0], x.grad
'''),
 dict(id="c19_inverse_clamped_input", property="C19",
  edits=[(N+"functional/_soft_round_inverse.py", '''    s = (y - m) * (torch.tanh(maximum / 2.0) * 2.0)
''', '''    s = (y - m) * (torch.tanh(maximum / 2.0) * 2.0)
    s = torch.clamp(s, -1.0 + 1e-3, 1.0 - 1e-3)  # keeps atanh finite
''')],
  needs="sharpness above about eight and values within a thousandth of an integer",
  breaks="the inverse stops short of the integers: soft rounding is no longer undone there",
  demo='''
import torch
from neuralcompression.functional import soft_round_inverse, soft_round
for a in (0.5, 2.0, 6.0, 9.0, 12.0):
    for v in (-1.0, -0.3, 0.0, 0.3, 0.5, 1.0, 2.0, 0.9999, 3.0001):
        x = torch.tensor([v], dtype=torch.double)
        assert torch.allclose(soft_round(soft_round_inverse(x, a), a), x, atol=1e-5), (a, v)
'''),
 dict(id="c20_const_cosine_ramp_overlap", property="C20",
  edits=[(N+"optim/_ramp_const_cosine.py", '''            cosine_step = step - (self._max_steps - self._num_cosine_steps)
''', '''            cosine_step = step - max(
                self._max_steps - self._num_cosine_steps, num_ramp_steps
            )
''')],
  needs="ramp and cosine phases that overlap (ramp plus cosine steps exceed the maximum)",
  breaks="the decay starts later than defined and does not reach its minimum at the last step",
  demo='''
import torch
from neuralcompression.optim import RampConstCosineLRSchedule as S
import math
p = torch.nn.Parameter(torch.zeros(1))
o = torch.optim.SGD([p], lr=1.0)
s = S(o, num_max_steps=10, num_ramp_steps=6, num_cosine_steps=8)
for step in range(10):
    o.step(); s.step()
assert s.get_last_lr()[0] < 1e-9, s.get_last_lr()
'''),
]
