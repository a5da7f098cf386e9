"""Small exact networks used to close the codecs under test.

All weights are small dyadic rationals and all inputs multiples of 1/16, so
every float32 operation before entropy coding is exact: results cannot depend
on summation order, batch size or kernel choice, and equality is decidable.
"""
import torch
import torch.nn as nn
import torch.nn.functional as F


def dyadic_(module: nn.Module, seed: int, den: int = 4, keep: int = 3):
    """Overwrite conv weights/biases by sparse multiples of 1/den (deterministic)."""
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for m in module.modules():
            if isinstance(m, (nn.Conv2d, nn.ConvTranspose2d, nn.Linear)):
                w = torch.randint(-2, 3, m.weight.shape, generator=g).float() / den
                mask = torch.rand(m.weight.shape, generator=g)
                fan = m.weight[0].numel()
                w = torch.where(mask < min(1.0, keep / max(1, fan) * 4), w, torch.zeros_like(w))
                m.weight.copy_(w)
                if m.bias is not None:
                    m.bias.copy_(torch.randint(-2, 3, m.bias.shape, generator=g).float() / den)
    return module


class ExactEncoder(nn.Module):
    """16x downsampling encoder; every latent reads one 16x16 cell (4 taps)."""

    def __init__(self, cin, lat, gain, seed=0):
        super().__init__()
        conv = nn.Conv2d(cin, lat, kernel_size=16, stride=16)
        g = torch.Generator().manual_seed(100 + seed)
        w = torch.zeros_like(conv.weight)
        for o in range(lat):
            for _ in range(4):
                c, y, x = (int(torch.randint(0, n, (1,), generator=g)) for n in (cin, 16, 16))
                w[o, c, y, x] = gain * float(torch.randint(-3, 4, (1,), generator=g))
        with torch.no_grad():
            conv.weight.copy_(w)
            conv.bias.copy_(torch.randint(-4, 5, conv.bias.shape, generator=g).float() / 4)
        self.blocks = nn.Sequential(nn.Sequential(conv))

    def forward(self, x):
        return self.blocks(x)


class ExactDecoder(nn.Module):
    """16x upsampling; keeps every latent visible in the output image."""

    def __init__(self, cout, lat, gain, seed=0):
        super().__init__()
        self.gain = gain
        conv = nn.Conv2d(lat, cout * 256, kernel_size=1)
        g = torch.Generator().manual_seed(200 + seed)
        with torch.no_grad():
            conv.weight.copy_(torch.randint(-4, 5, conv.weight.shape, generator=g).float() / 64)
            conv.bias.copy_(torch.randint(0, 17, conv.bias.shape, generator=g).float() / 16)
        self.blocks = nn.Sequential(conv)

    def forward(self, x):
        return F.pixel_shuffle(self.blocks(x / max(1.0, self.gain)), 16)


def image(b, c, h, w, seed=0, den=16):
    """Deterministic, non-periodic image batch with values k/den in [0,1]."""
    bi = torch.arange(b).view(b, 1, 1, 1)
    ci = torch.arange(c).view(1, c, 1, 1)
    y = torch.arange(h).view(1, 1, h, 1)
    x = torch.arange(w).view(1, 1, 1, w)
    v = (y * y * 7 + x * 13 + x * y * 3 + ci * 29 + bi * 101 + seed * 57 + (x * x * y) // 5)
    return ((v % (den + 1)).float() / den)


def trained_medians_(eb, seed=0):
    """Give an entropy bottleneck channel-dependent, non-integer medians (as after training)."""
    with torch.no_grad():
        n = eb.quantiles.shape[0]
        med = torch.tensor([((3 * i + 5 * seed + 1) % 8 - 3.5) / 4 + 0.25 * (i % 3) for i in range(n)])
        eb.quantiles[:, 0, 1] = med
        eb.quantiles[:, 0, 0] = med - 6 - torch.arange(n) % 4
        eb.quantiles[:, 0, 2] = med + 7 + torch.arange(n) % 3
    return eb
