SEEDS = [
 dict(id="c43_codebook_cached_in_eval", property="C43",
  edits=[("neuralcompression/layers/_q_bottleneck.py", '''        if self.normalize_codebook:
            codebook = F.normalize(codebook, dim=1)
''', '''        if self.normalize_codebook:
            if self.training or codebook.requires_grad:
                self._unit_codebooks = {}
                codebook = F.normalize(codebook, dim=1)
            else:
                key = tuple(codebook.shape)
                if key not in self._unit_codebooks:
                    self._unit_codebooks[key] = F.normalize(codebook, dim=1)
                codebook = self._unit_codebooks[key]
'''), ("neuralcompression/layers/_q_bottleneck.py", '''        self.normalize_codebook = normalize_codebook

''', '''        self.normalize_codebook = normalize_codebook
        self._unit_codebooks: dict = {}

''')],
  needs="a state loaded into a model with a frozen codebook that was evaluated before",
  breaks="the quantiser keeps using the codebook from before the state was loaded",
  files=[],
  demo='''
import torch
from neuralcompression import VqVaeAutoencoderOutput
from neuralcompression.layers import VQBottleneck
def make(seed):
    torch.manual_seed(seed)
    m = VQBottleneck(7, 3, "normal").eval()
    for p in m.parameters():
        p.requires_grad_(False)
    return m
a, b = make(0), make(1)
torch.manual_seed(2)
x = lambda: VqVaeAutoencoderOutput(latent=torch.nn.functional.normalize(torch.arange(96.0).sin().view(2, 3, 4, 4), dim=1))
b(x())
b.load_state_dict(a.state_dict())
assert torch.equal(a(x()).indices, b(x()).indices)
'''),
 dict(id="c43_projector_keeps_source", property="C43",
  edits=[("neuralcompression/models/_vqvae_projector.py", '''        self.bottleneck_op = vq_model.bottleneck_op
        self.eval()
''', '''        self.bottleneck_op = vq_model.bottleneck_op
        self._labels = lambda image: self.bottleneck_op(
            VqVaeAutoencoderOutput(latent=self.encoder(image))
        ).indices
        self.eval()
'''), ("neuralcompression/models/_vqvae_projector.py", '''        output = self.bottleneck_op(
            VqVaeAutoencoderOutput(latent=self.encoder(image))
        ).indices
        assert output is not None
''', '''        output = self._labels(image)
        assert output is not None
''')],
  needs="a copied projector",
  breaks="a copy of the projector runs, and counts on, the original's networks",
  files=[],
  demo='''
import copy, torch
from neuralcompression.layers import NormalizeLatent, ProjectLatent, VQBottleneck
from neuralcompression.models import VqVaeProjector, VqVaeXCiTAutoencoder
torch.manual_seed(0)
vq = VQBottleneck(6, 2, "normal")
m = VqVaeXCiTAutoencoder(ch=32, ch_mult=(1, 2), num_res_blocks=1, attn_resolutions=[16], resamp_with_conv=True, resolution=32, embed_dim=4,
                         bottleneck_op=ProjectLatent(4, 2, NormalizeLatent(vq)))
p = VqVaeProjector(m)
c = copy.deepcopy(p)
with torch.no_grad():
    c(torch.rand(1, 3, 8, 8))
assert int(vq.codebook_hits_0.sum()) == 0, "the original counted"
'''),
 dict(id="c43_first_latent_cached", property="C43",
  edits=[("projects/torch_vct/model_pipeline.py", '''        return self.weight * self.weight.new_ones(latent_shape)
''', '''        if self.training or torch.is_grad_enabled():
            return self.weight * self.weight.new_ones(latent_shape)
        # the weight does not change outside of training
        key = tuple(latent_shape)
        if key not in self._expanded:
            self._expanded = {key: self.weight * self.weight.new_ones(latent_shape)}
        return self._expanded[key]
'''), ("projects/torch_vct/model_pipeline.py", '''        self.weight = nn.parameter.Parameter(torch.rand((1, num_channels, 1, 1)))
''', '''        self.weight = nn.parameter.Parameter(torch.rand((1, num_channels, 1, 1)))
        self._expanded: Dict[Tuple[int, ...], Tensor] = {}
'''), ("projects/torch_vct/model_pipeline.py", '''from typing import ''', '''from typing import Dict, ''')],
  needs="an evaluation, then training or loading a state, then an evaluation at the same size",
  breaks="the first frame is predicted from the weight of before",
  files=[],
  demo='''
import os, sys, torch
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "torch_vct"))
from model_pipeline import PerChannelWeight
torch.manual_seed(0)
a, b = PerChannelWeight(3).eval(), PerChannelWeight(3).eval()
with torch.no_grad():
    b((2, 3, 4, 4))
    b.load_state_dict(a.state_dict())
    assert torch.equal(a((2, 3, 4, 4)), b((2, 3, 4, 4)))
'''),
]
