HIFIC = "neuralcompression/models/_hific_autoencoder.py"
DVCF = "neuralcompression/models/deep_video_compression.py"
MODEL = '''
import torch
from neuralcompression.models import HiFiCAutoencoder
torch.manual_seed(0)
m = HiFiCAutoencoder(in_channels=3, latent_features=4, hyper_features=4, num_residual_blocks=1)
'''
SEEDS = [
 dict(id="c01_hyper_medians", property="C01",
  edits=[(HIFIC, '''        hyper_latent_decoded = self.hyper_bottleneck.decompress(
            hyper_latent_strings, hyper_latent.shape[-2:]
        )

        # hyper synthesis
        means = self.hyper_synthesis_mean(hyper_latent_decoded)
        scales = self.hyper_synthesis_scale(hyper_latent_decoded)

        # latent compression''', '''        hyper_latent_decoded = hyper_latent.round()

        # hyper synthesis
        means = self.hyper_synthesis_mean(hyper_latent_decoded)
        scales = self.hyper_synthesis_scale(hyper_latent_decoded)

        # latent compression''')],
  needs="a hyper bottleneck whose medians are not integers (any trained model): encoder conditions on a different hyper latent than the decoder",
  breaks="decoded image no longer equals the evaluation-mode reconstruction",
  demo=MODEL + '''
with torch.no_grad():
    m.hyper_bottleneck.quantiles[:, :, 1] += 0.37
    for p in list(m.hyper_analysis.parameters()) + list(m.hyper_synthesis_mean.parameters()) + list(m.hyper_synthesis_scale.parameters()):
        p.mul_(6.0)
m.eval(); m.update()
x = torch.rand(1, 3, 64, 128)
with torch.no_grad():
    a = m(x).image.clamp(0, 1)
    m.update_tensor_devices("compress")
    b = m.decompress(m.compress(x))
print((a - b).abs().max())
assert (a - b).abs().max() < 1e-4
'''),
 dict(id="c01_crop_swapped", property="C01",
  edits=[(HIFIC, '''            compressed_data.padded_size[0] // 2**4,
            compressed_data.padded_size[1] // 2**4,
        )
        hyper_latent_size = (latent_size[0] // 2**2, latent_size[1] // 2**2)
''', '''            compressed_data.padded_size[0] // 2**4,
            compressed_data.padded_size[1] // 2**4,
        )
        hyper_latent_size = (
            -(-compressed_data.image_size[0] // self._factor),
            -(-compressed_data.image_size[0] * latent_size[1] // latent_size[0] // self._factor),
        )
''')],
  needs="a non-square image that needs padding by different relative amounts in the two directions",
  breaks="decompress derives a wrong hyper latent width and fails or returns garbage",
  demo=MODEL + '''
m.eval(); m.update_tensor_devices("compress")
for size in [(64, 64), (65, 64), (129, 65), (70, 300), (100, 190)]:
    x = torch.rand(1, 3, *size)
    with torch.no_grad():
        y = m.decompress(m.compress(x))
    assert y.shape == x.shape, (size, y.shape)
'''),
 dict(id="c02_both_frozen", property="C02",
  edits=[(HIFIC, '''            model.freeze_encoder()
        if model._frozen_bottleneck:
            model.freeze_bottleneck()

        return model''', '''            model.freeze_encoder()
        elif model._frozen_bottleneck:
            model.freeze_bottleneck()

        return model''')],
  needs="both encoder and bottleneck frozen, followed by train()",
  breaks="the frozen bottleneck returns to training mode",
  demo=MODEL + '''
m.freeze_encoder(); m.train(); m.freeze_bottleneck(); m.train(); 
assert not m.hyper_bottleneck.training and not m.latent_bottleneck.training and not m.encoder.training
'''),
 dict(id="c03_flow_drift", property="C03",
  edits=[(DVCF, '''        compressed_flow = self.motion_entropy_bottleneck.compress(flow_latent)
        flow_latent = self.motion_entropy_bottleneck.decompress(
            compressed_flow, flow_latent.shape[-2:]
        )
''', '''        compressed_flow = self.motion_entropy_bottleneck.compress(flow_latent)
''')],
  needs="motion latents that are not already integers",
  breaks="the encoder's residual is taken against a different prediction than the decoder's, so decoded frame != evaluation-mode estimate",
  demo='''
import torch
from neuralcompression.models import DVC
from neuralcompression.models.deep_video_compression import *
torch.manual_seed(0)
m = DVC(coder_channels=4, motion_estimator=DVCPyramidFlowEstimator(filter_counts=[4, 2], levels=2),
        motion_compensation=DVCMotionCompensationModel(model_channels=4))
with torch.no_grad():
    for p in m.parameters():
        if p.dim() == 4: p.mul_(3)
m.eval(); m.update()
bad = 0
for seed in range(4):
    torch.manual_seed(seed)
    a, b = torch.rand(1, 3, 64, 64), torch.rand(1, 3, 64, 64)
    with torch.no_grad():
        want = m(a, b).image2_est.clamp(0, 1)
        got = m.decompress(a, m.compress(a, b))
    bad = max(bad, (want - got).abs().max().item())
print(bad)
assert bad < 1e-4
'''),
 dict(id="c04_small_pad_shift", property="C04",
  edits=[("neuralcompression/functional/_pad_image.py", '''    if pad_height != 0 or pad_width != 0:
        image = F.pad(image, (0, pad_width, 0, pad_height), mode=mode)
''', '''    if pad_height != 0 or pad_width != 0:
        left = pad_width // 2 if pad_width == pad_height else 0
        image = F.pad(image, (left, pad_width - left, 0, pad_height), mode=mode)
''')],
  needs="both directions missing the same number of pixels",
  breaks="the original image is no longer in the top-left corner",
  demo='''
import torch
from neuralcompression.functional import pad_image_to_factor
for h, w in [(5, 6), (6, 6), (7, 15), (8, 8)]:
    x = torch.rand(1, 1, h, w)
    y, (a, b) = pad_image_to_factor(x, 8)
    assert torch.equal(y[..., :a, :b], x), (h, w)
'''),
]
