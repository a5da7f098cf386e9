From 0f6af2e09cc69618ac81758dea04d5338447c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 01/60] fix: DVC.decompress latent size for frames whose last
 encoder stage has odd size

The stride-2 encoder rounds odd sizes up, but decompress rounded them down, so
any frame height/width with ceil(size/8) odd (1080p among them) could not be
decoded.
---
 neuralcompression/models/deep_video_compression.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/models/deep_video_compression.py b/neuralcompression/models/deep_video_compression.py
index afb61e2..425d2fe 100644
--- a/neuralcompression/models/deep_video_compression.py
+++ b/neuralcompression/models/deep_video_compression.py
@@ -224,9 +224,10 @@ class DVC(nn.Module):
             An estimate of ``image2`` using ``image1`` and the compressed
                 transition information.
         """
+        # strided convolutions round odd sizes up
         flow_latent_size = (
-            compressed_pframe.flow_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.flow_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-1] + 1) // 2,
         )
         flow_latent = self.motion_entropy_bottleneck.decompress(
             compressed_pframe.compressed_flow, flow_latent_size
@@ -241,8 +242,8 @@ class DVC(nn.Module):
 
         # decode residual
         residual_latent_size = (
-            compressed_pframe.residual_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.residual_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-1] + 1) // 2,
         )
         residual_latent = self.residual_entropy_bottleneck.decompress(
             compressed_pframe.compressed_residual, residual_latent_size
-- 
2.43.0


From b0f3fc1d72bb53cf9013f0fcc4277591348d87a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:57 +0000
Subject: [PATCH 02/60] fix: VCT entropy model compress without decode returns
 the latent the strings encode

---
 projects/torch_vct/neural/entropy_model.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/projects/torch_vct/neural/entropy_model.py b/projects/torch_vct/neural/entropy_model.py
index e33a5f9..9e70120 100644
--- a/projects/torch_vct/neural/entropy_model.py
+++ b/projects/torch_vct/neural/entropy_model.py
@@ -503,10 +503,18 @@ class VCTEntropyModel(nn.Module):
         # Count bits in each sequence, each string is a list of len 1
         bits = [sum(len(string[0]) * 8 for string in strings)]
 
+        # what the strings encode; unlike `torch.round(latent_unquantized)` this is also
+        # right for ties, which the bottleneck rounds relative to the rounded mean
+        dequantized = self.patcher.unpatch(
+            x_patched=(quantized, (n_h, n_w)),
+            crop=(H, W),
+            channels_last=True,
+        )
+
         # decoding:
         if not run_decode:
             # For performance, since coding is lossless, real decode can be skipped
-            decoded = torch.round(latent_unquantized)
+            decoded = dequantized
         else:
             use_output_from_encode = True
             decoded = self._decode(
@@ -517,11 +525,6 @@ class VCTEntropyModel(nn.Module):
                 encode_scales=scales,
                 use_output_from_encode=use_output_from_encode,
             )
-            dequantized = self.patcher.unpatch(
-                x_patched=(quantized, (n_h, n_w)),
-                crop=(H, W),
-                channels_last=True,
-            )
             if use_output_from_encode:
                 # This should pass if `use_output_from_encode=True`
                 assert (decoded == dequantized).all(), "Something went wrong!"
-- 
2.43.0


From 4d18fa718a33b8237a58a633034a984452731980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:41 +0000
Subject: [PATCH 03/60] fix: memoize keeps tensors in its keys alive so that
 reused ids cannot alias cached results

---
 projects/torch_vct/utils/memoize.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/utils/memoize.py b/projects/torch_vct/utils/memoize.py
index a2cf585..8305aaa 100644
--- a/projects/torch_vct/utils/memoize.py
+++ b/projects/torch_vct/utils/memoize.py
@@ -83,6 +83,24 @@ def create_cache():
     )
 
 
+class _TensorRef:
+    """
+    Hashable reference to a tensor, compared by identity
+
+    Holds on to the tensor: its `id` could otherwise be reused by another tensor
+    while results are still cached under it.
+    """
+
+    def __init__(self, tensor: Tensor):
+        self.tensor = tensor
+
+    def __hash__(self):
+        return id(self.tensor)
+
+    def __eq__(self, other):
+        return isinstance(other, _TensorRef) and self.tensor is other.tensor
+
+
 def _ensure_hashable(x: Union[list, tuple, dict, Tensor]):
     """Return a version of x that is hashable."""
     if isinstance(x, (list, tuple)):
@@ -92,7 +110,7 @@ def _ensure_hashable(x: Union[list, tuple, dict, Tensor]):
         return tuple((_ensure_hashable(k), _ensure_hashable(v)) for k, v in x.items())
 
     if isinstance(x, Tensor):
-        return hash(x)
+        return _TensorRef(x)
 
     assert hash(x) is not None
     return x
-- 
2.43.0


From 668059d9e995368f79863f2b432305d48e7aa19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:52 +0000
Subject: [PATCH 04/60] fix: ConvGDNSynthesis reports its actual number of
 compression channels

---
 projects/torch_vct/neural/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/transforms.py b/projects/torch_vct/neural/transforms.py
index a9c409a..b62b2b7 100644
--- a/projects/torch_vct/neural/transforms.py
+++ b/projects/torch_vct/neural/transforms.py
@@ -73,7 +73,7 @@ class ConvGDNSynthesis(nn.Module):
         """
 
         super().__init__()
-        self._compression_channels = 192
+        self._compression_channels = compression_channels
 
         self.transforms = nn.Sequential(
             make_deconv(
-- 
2.43.0


From ab24663fe362f55d3d4752846e3a94a3f23d6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:52 +0000
Subject: [PATCH 05/60] fix: VCTPipeline passes its context length to the
 entropy model

---
 projects/torch_vct/model_pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index a280ef9..2a9fdc8 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -181,7 +181,9 @@ class VCTPipeline(nn.Module):
         ), "Mismatched compression_channels"
 
         # Entropy model
-        self.entropy_model = VCTEntropyModel(num_channels=compression_channels)
+        self.entropy_model = VCTEntropyModel(
+            num_channels=compression_channels, context_len=context_len
+        )
         self._temporal_pad_token_maker = PerChannelWeight(
             num_channels=compression_channels
         )
-- 
2.43.0


From cc5f142be1a6fdd022d883b497d2a9e878faa6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:52 +0000
Subject: [PATCH 06/60] fix: VCTPipeline.compress_video no longer breaks later
 evaluation passes

---
 projects/torch_vct/model_pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index 2a9fdc8..bf4bb23 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -497,6 +497,7 @@ class VCTPipeline(nn.Module):
             else:
                 assert res.likelihood.dim() == 1
                 bits.append(res.likelihood.item())
+        self._code_to_strings = False  # later forward passes estimate likelihoods again
 
         # Stack recosntructions to get [B, T, C, H, W]; sum to get total bits
         return torch.stack(rec_scenes, dim=1), bits
-- 
2.43.0


From 4a84524e16a53542c0f64ed758b26f1bf3038991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:52 +0000
Subject: [PATCH 07/60] fix: QBottleneck.reset_hits clears the codebook hit
 counters

named_buffers yields (name, tensor) tuples and its prefix argument does not
filter, so the counters were never reset.
---
 neuralcompression/layers/_q_bottleneck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_q_bottleneck.py b/neuralcompression/layers/_q_bottleneck.py
index 6b25ad3..099b0df 100644
--- a/neuralcompression/layers/_q_bottleneck.py
+++ b/neuralcompression/layers/_q_bottleneck.py
@@ -91,8 +91,8 @@ class QBottleneck(nn.Module):
         self.register_buffer("percentage_hits", torch.zeros(num_codebooks))
 
     def reset_hits(self):
-        for codebook_hits in self.named_buffers(prefix="codebook_hits"):
-            codebook_hits *= 0
+        for ind in range(len(self.codebooks)):
+            getattr(self, f"codebook_hits_{ind}").zero_()
 
     def update_metrics(self):
         assert len(self.percentage_hits) == len(self.max_hits) == len(self.perplexities)
-- 
2.43.0


From 0aac3a5e9eb6261197b66aee383038f2304bb272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 08/60] fix: FID metrics can be computed after a distributed
 sync

Synchronising a 'cat' state leaves a tensor instead of a list of tensors, on
which torch.cat raised.
---
 neuralcompression/metrics/_fid.py      | 5 +++--
 neuralcompression/metrics/_fid_swav.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/metrics/_fid.py b/neuralcompression/metrics/_fid.py
index 4fb0ed1..82ff406 100644
--- a/neuralcompression/metrics/_fid.py
+++ b/neuralcompression/metrics/_fid.py
@@ -14,6 +14,7 @@ from torch_fidelity.metric_fid import (
 )
 from torchmetrics.image.fid import NoTrainInceptionV3
 from torchmetrics.metric import Metric
+from torchmetrics.utilities.data import dim_zero_cat
 
 
 def _compute_fid_from_features(
@@ -90,6 +91,6 @@ class FrechetInceptionDistance(Metric):
 
     def compute(self) -> Tensor:
         return _compute_fid_from_features(
-            torch.cat(self.real_features).to(torch.float64),
-            torch.cat(self.fake_features).to(torch.float64),
+            dim_zero_cat(self.real_features).to(torch.float64),
+            dim_zero_cat(self.fake_features).to(torch.float64),
         )
diff --git a/neuralcompression/metrics/_fid_swav.py b/neuralcompression/metrics/_fid_swav.py
index 807349b..8dfe88f 100644
--- a/neuralcompression/metrics/_fid_swav.py
+++ b/neuralcompression/metrics/_fid_swav.py
@@ -14,6 +14,7 @@ from torch_fidelity.metric_fid import (
     fid_statistics_to_metric,
 )
 from torchmetrics.metric import Metric
+from torchmetrics.utilities.data import dim_zero_cat
 from torchvision.transforms import Normalize
 
 
@@ -107,6 +108,6 @@ class FrechetInceptionDistanceSwAV(Metric):
 
     def compute(self) -> Tensor:
         return _compute_fid_from_features(
-            torch.cat(self.real_features).to(torch.float64),
-            torch.cat(self.fake_features).to(torch.float64),
+            dim_zero_cat(self.real_features).to(torch.float64),
+            dim_zero_cat(self.fake_features).to(torch.float64),
         )
-- 
2.43.0


From 21c07b2e44c3bc418f310f0010a4d425029793e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 09/60] fix: KernelInceptionDistance uses its configured kernel
 and subsets

compute() ignored subsets, subset_size, degree, gamma and coef. Workers with
different numbers of updates could not be synchronised either.
---
 neuralcompression/metrics/_kid.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/metrics/_kid.py b/neuralcompression/metrics/_kid.py
index 1ea8fce..4374da1 100644
--- a/neuralcompression/metrics/_kid.py
+++ b/neuralcompression/metrics/_kid.py
@@ -11,6 +11,7 @@ from torch.nn import Module
 from torch_fidelity.metric_kid import kid_features_to_metric
 from torchmetrics.image.kid import NoTrainInceptionV3
 from torchmetrics.metric import Metric
+from torchmetrics.utilities.data import dim_zero_cat
 
 
 class KernelInceptionDistance(Metric):
@@ -71,8 +72,8 @@ class KernelInceptionDistance(Metric):
         self.normalize = normalize
 
         # states for extracted features
-        self.add_state("real_features", [], dist_reduce_fx=None)
-        self.add_state("fake_features", [], dist_reduce_fx=None)
+        self.add_state("real_features", [], dist_reduce_fx="cat")
+        self.add_state("fake_features", [], dist_reduce_fx="cat")
 
     def update(self, imgs: Tensor, real: bool) -> None:
         imgs = (imgs * 255).byte() if self.normalize else imgs
@@ -85,8 +86,13 @@ class KernelInceptionDistance(Metric):
 
     def compute(self) -> Tuple[Tensor, Tensor]:
         output = kid_features_to_metric(
-            torch.cat(self.real_features).to(torch.float64),
-            torch.cat(self.fake_features).to(torch.float64),
+            dim_zero_cat(self.real_features).to(torch.float64),
+            dim_zero_cat(self.fake_features).to(torch.float64),
+            kid_subsets=self.subsets,
+            kid_subset_size=self.subset_size,
+            kid_kernel_poly_degree=self.degree,
+            kid_kernel_poly_gamma=self.gamma,
+            kid_kernel_poly_coef0=self.coef,
         )
         return (
             torch.tensor(output["kernel_inception_distance_mean"]),
-- 
2.43.0


From 484083b44fbbcb0cd8f4af3e9f1e785e39feb93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:02 +0000
Subject: [PATCH 10/60] fix: PSNR of integer images no longer wraps around

---
 neuralcompression/metrics/_calc_psnr.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/neuralcompression/metrics/_calc_psnr.py b/neuralcompression/metrics/_calc_psnr.py
index d7ef5ec..bd8f050 100644
--- a/neuralcompression/metrics/_calc_psnr.py
+++ b/neuralcompression/metrics/_calc_psnr.py
@@ -22,6 +22,11 @@ def calc_psnr(image: Tensor, reference: Tensor, data_range: float = 255.0) -> Te
     Returns:
         PSNR between image and reference.
     """
+    if not torch.is_floating_point(image):
+        # integer differences would wrap around
+        image = image.to(torch.get_default_dtype())
+    if not torch.is_floating_point(reference):
+        reference = reference.to(torch.get_default_dtype())
     mse = torch.mean((image - reference) ** 2)
     return 20.0 * math.log10(data_range) - 10.0 * torch.log10(mse)
 
@@ -40,5 +45,10 @@ def calc_psnr_numpy(
     Returns:
         PSNR between image and reference.
     """
+    if not np.issubdtype(image.dtype, np.floating):
+        # integer differences would wrap around
+        image = image.astype(np.float64)
+    if not np.issubdtype(reference.dtype, np.floating):
+        reference = reference.astype(np.float64)
     mse = np.mean((image - reference) ** 2)
     return 20.0 * math.log10(data_range) - 10.0 * np.log10(mse)
-- 
2.43.0


From b7ba79348e6c98c674672193bf4c92db3d50568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 11/60] fix: log_ndtr precision and gradients in the lower tail

---
 neuralcompression/functional/_log_ndtr.py | 12 +++++++-----
 neuralcompression/functional/_ndtr.py     |  7 ++++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index 57a6d57..a0ab467 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -8,7 +8,7 @@ import math
 import torch
 from torch import Tensor
 
-from ._ndtr import ndtr
+from ._ndtr import _ndtr
 
 
 def _log_ndtr_asymptotic_series(x: Tensor, series_order: int = 3) -> Tensor:
@@ -21,7 +21,7 @@ def _log_ndtr_asymptotic_series(x: Tensor, series_order: int = 3) -> Tensor:
     for n in range(1, series_order + 1):
         t2.add_(multiplier * double_fac / value_even_power)
         value_even_power.mul_(x**2)
-        double_fac *= 2 * n - 1
+        double_fac *= 2 * n + 1
         multiplier *= -1
 
     return t1 + torch.log1p(t2)
@@ -46,12 +46,14 @@ def log_ndtr(x: Tensor) -> Tensor:
             f"`{log_ndtr.__name__}` doesn’t support {x.dtype}",
         )
 
+    # every branch only sees the values it is valid for, since a NaN or infinite
+    # gradient of an unused branch would not be masked by `torch.where`
     return torch.where(
         x > n,
-        torch.log1p(-ndtr(-x)),
+        torch.log1p(-_ndtr(-x.clamp_min(n))),
         torch.where(
             x >= m,
-            torch.log(ndtr(x)),
-            _log_ndtr_asymptotic_series(x),
+            torch.log(_ndtr(x.clamp(m, n))),
+            _log_ndtr_asymptotic_series(x.clamp_max(m)),
         ),
     )
diff --git a/neuralcompression/functional/_ndtr.py b/neuralcompression/functional/_ndtr.py
index 6cb2bce..129d3e5 100644
--- a/neuralcompression/functional/_ndtr.py
+++ b/neuralcompression/functional/_ndtr.py
@@ -19,7 +19,12 @@ def ndtr(x: Tensor) -> Tensor:
         the area under the standard Normal probability density function (PDF),
         integrated from negative infinity to :math:`x`.
     """
-    x = x.to(torch.float) * math.sqrt(0.5)
+    return _ndtr(x.to(torch.float))
+
+
+def _ndtr(x: Tensor) -> Tensor:
+    """``ndtr`` in the precision of the input tensor."""
+    x = x * math.sqrt(0.5)
 
     y = 0.5 * torch.erfc(abs(x))
 
-- 
2.43.0


From 9723129019804328d21af5eb79ce136320a3fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 12/60] fix: log_cdf of a Uniform distribution uses its bounds

---
 neuralcompression/functional/_log_cdf.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neuralcompression/functional/_log_cdf.py b/neuralcompression/functional/_log_cdf.py
index c1c80e5..cfc5b39 100644
--- a/neuralcompression/functional/_log_cdf.py
+++ b/neuralcompression/functional/_log_cdf.py
@@ -5,7 +5,7 @@
 
 import torch
 from torch import Tensor
-from torch.distributions import Distribution, Normal, Uniform
+from torch.distributions import Distribution, Normal
 
 from ._log_ndtr import log_ndtr
 
@@ -30,7 +30,4 @@ def log_cdf(
 
         return log_ndtr(standardized)
 
-    if isinstance(distribution, Uniform):
-        return torch.log(x)
-
     return torch.log(distribution.cdf(x))
-- 
2.43.0


From 795ad1d6ef7722844b4a1fb2f01d0463e610aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 13/60] fix: log_survival_function of distributions other than
 Normal

---
 neuralcompression/functional/_log_survival_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_survival_function.py b/neuralcompression/functional/_log_survival_function.py
index bdb76fe..9a037fb 100644
--- a/neuralcompression/functional/_log_survival_function.py
+++ b/neuralcompression/functional/_log_survival_function.py
@@ -30,4 +30,4 @@ def log_survival_function(
 
         return log_ndtr(-standardized)
 
-    return torch.log1p(distribution.cdf(-x))
+    return torch.log1p(-distribution.cdf(x))
-- 
2.43.0


From 65a9321d170702144dee824bcd34dedf3f5046f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 14/60] fix: quantization_offset is zero when the mean is
 undefined

---
 neuralcompression/functional/_quantization_offset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/functional/_quantization_offset.py b/neuralcompression/functional/_quantization_offset.py
index a584690..6d79833 100644
--- a/neuralcompression/functional/_quantization_offset.py
+++ b/neuralcompression/functional/_quantization_offset.py
@@ -37,8 +37,12 @@ def quantization_offset(distribution: Distribution) -> Tensor:
     """
     try:
         offset = distribution.mean
-    except AttributeError:
-        offset = torch.tensor(0)
+    except (AttributeError, NotImplementedError):
+        offset = torch.tensor(0.0)
 
     with torch.no_grad():
+        offset = torch.where(
+            torch.isfinite(offset), offset, torch.zeros_like(offset)
+        )
+
         return offset - torch.round(offset)
-- 
2.43.0


From 8232dc181e25fb926579e44a17234a5637a015eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 15/60] fix: estimate_tails terminates when it hits the target
 exactly

---
 neuralcompression/functional/_estimate_tails.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_estimate_tails.py b/neuralcompression/functional/_estimate_tails.py
index a727294..1c24024 100644
--- a/neuralcompression/functional/_estimate_tails.py
+++ b/neuralcompression/functional/_estimate_tails.py
@@ -57,7 +57,8 @@ def estimate_tails(
     variance = torch.ones(shape, dtype=dtype)
 
     while torch.min(counts) < 100:
-        abs(func(tails) - target).backward(torch.ones_like(tails))
+        difference = func(tails) - target
+        abs(difference).backward(torch.ones_like(tails))
 
         assert tails.grad is not None
         gradient = tails.grad.cpu()
@@ -71,6 +72,9 @@ def estimate_tails(
 
         condition = torch.logical_or(counts > 0, gradient.cpu() * tails.cpu() > 0)
 
+        # there is no gradient to follow when the target was hit exactly
+        condition = torch.logical_or(condition, difference.detach().cpu() == 0)
+
         counts = torch.where(condition, counts + 1, counts)
 
         tails.grad.zero_()
-- 
2.43.0


From d980f51dfb4de834032da73d2e4588bbcba34bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 16/60] fix: UniformNoise reports the batch and event shape of
 its base distribution

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 028a0b2..ce2871b 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -44,8 +44,8 @@ class UniformNoise(Distribution):
 
     def __init__(self, distribution: Distribution):
         super(UniformNoise, self).__init__(
-            distribution.event_shape,
             distribution.batch_shape,
+            distribution.event_shape,
         )
 
         self._distribution = distribution
-- 
2.43.0


From c575529d9fc4b55f0a6bdaa2ec8ad2a85339bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 17/60] fix: expanding a UniformNoise distribution keeps the
 noise

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index ce2871b..25cb865 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -82,7 +82,7 @@ class UniformNoise(Distribution):
         return self._distribution.enumerate_support(expand)
 
     def expand(self, batch_shape, _instance=None) -> Distribution:
-        return self._distribution.expand(batch_shape)
+        return UniformNoise(self._distribution.expand(batch_shape))
 
     def icdf(self, value: Tensor) -> Tensor:
         return self._distribution.icdf(value)
-- 
2.43.0


From 34cde19888bdf1cc410b667f2d878a179e8e4483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 18/60] fix: UniformNoise draws independent noise for every
 element of the batch

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 25cb865..3788316 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -134,7 +134,7 @@ class UniformNoise(Distribution):
 
     def rsample(self, sample_shape: Size = Size()):
         a = self._distribution.sample(sample_shape)
-        b = self._uniform_distribution.sample(sample_shape)
+        b = self._uniform_distribution.sample(a.shape)
 
         return a + b
 
-- 
2.43.0


From 3338b85002f6a2c9bd0ac39980590fc4ecc684b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:58 +0000
Subject: [PATCH 19/60] fix: UniformNoise.log_prob is -inf instead of NaN where
 there is no mass

---
 neuralcompression/distributions/_uniform_noise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 3788316..e6af6d3 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -111,7 +111,12 @@ class UniformNoise(Distribution):
             log_cdf_negative,
         )
 
-        return torch.log1p(-torch.exp(b - a)) + a
+        # both terms are infinite where the base distribution has no mass
+        return torch.where(
+            torch.isinf(a),
+            a,
+            torch.log1p(-torch.exp(b - a)) + a,
+        )
 
     def log_survival_function(self, value: Tensor) -> Tensor:
         return ncF.log_survival_function(value, self._distribution)
-- 
2.43.0


From 670d1878b0777cdfacc532d96716af8418864f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:49 +0000
Subject: [PATCH 20/60] fix: ContinuousEntropy.quantize returns integers
 instead of raising

---
 neuralcompression/layers/_continuous_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index f292303..3e3cdbc 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -299,7 +299,7 @@ class ContinuousEntropy(Module):
 
         outputs = torch.round(outputs)
 
-        return IntTensor(outputs)
+        return outputs.to(torch.int32)
 
     def _update(self):
         quantization_offset = ncF.quantization_offset(self.prior)
-- 
2.43.0


From 5fe1e1287a7ae700fd8f14cc233d5adca1c43751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:49 +0000
Subject: [PATCH 21/60] fix: ContinuousEntropy.prior is available whether or
 not the layer is compressible

---
 neuralcompression/layers/_continuous_entropy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index 3e3cdbc..345fcec 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -89,6 +89,8 @@ class ContinuousEntropy(Module):
 
         self._coding_rank = coding_rank
 
+        self._prior = prior
+
         self._compressible = compressible
 
         self._stateless = stateless
@@ -128,8 +130,6 @@ class ContinuousEntropy(Module):
                 raise ValueError(error_message)
 
             if prior is not None:
-                self._prior = prior
-
                 cdfs, cdf_sizes, cdf_offsets = self._update()
             elif maximum_cdf_size is not None:
                 if self.stateless:
-- 
2.43.0


From ebf36b503c109393e01e6ba636e4db2f430f67dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:16 +0000
Subject: [PATCH 22/60] fix: ContinuousEntropy builds one coding table per
 distribution at the quantization offset

---
 neuralcompression/layers/_continuous_entropy.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index 345fcec..ff79f54 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -314,6 +314,9 @@ class ContinuousEntropy(Module):
         else:
             upper_tail = ncF.upper_tail(self.prior, self.tail_mass)
 
+        if len(self.context_shape) == 0:
+            lower_tail, upper_tail = lower_tail.squeeze(), upper_tail.squeeze()
+
         minimum = torch.floor(lower_tail - quantization_offset)
         minimum = minimum.to(torch.int32)
         minimum = torch.clamp_min(minimum, 0)
@@ -323,7 +326,6 @@ class ContinuousEntropy(Module):
         maximum = torch.clamp_min(maximum, 0)
 
         pmf_start = minimum.to(self.prior_dtype) + quantization_offset
-        pmf_start = pmf_start.to(torch.int32)
 
         pmf_sizes = maximum - minimum + 1
 
@@ -339,13 +341,16 @@ class ContinuousEntropy(Module):
         else:
             pmfs = torch.exp(self.prior.log_prob(samples))
 
+        pmfs = torch.broadcast_to(pmfs, samples.shape[:1] + self.context_shape)
+        pmfs = pmfs.reshape(len(samples), -1).T
+
         pmf_sizes = torch.broadcast_to(pmf_sizes, self.context_shape)
-        pmf_sizes = pmf_sizes.squeeze()
+        pmf_sizes = pmf_sizes.reshape(-1)
 
         cdf_sizes = pmf_sizes + 2
 
         cdf_offsets = torch.broadcast_to(minimum, self.context_shape)
-        cdf_offsets = cdf_offsets.squeeze()
+        cdf_offsets = cdf_offsets.reshape(-1)
 
         cdfs = torch.zeros(
             (len(pmf_sizes), int(maximum_pmf_size) + 2),
-- 
2.43.0


From b1037c967665c1269bb9c7db309d4f0fcd7cf9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:11 +0000
Subject: [PATCH 23/60] fix: lower_bound with a disconnected gradient returns
 the gradient, not the input

---
 neuralcompression/functional/_lower_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index be17e47..db9e008 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -28,7 +28,7 @@ class _LowerBound(Function):
         x, bound, gradient = ctx.saved_tensors
 
         if int(gradient) == _LowerBoundGradient.disconnected:
-            return x, None, None
+            return (x > bound) * y, None, None
 
         if int(gradient) == _LowerBoundGradient.identity:
             return y, None, None
-- 
2.43.0


From 65d3cc6d871b56451509bdc5dcd5c7ea8ed4cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:11 +0000
Subject: [PATCH 24/60] fix: lower_bound accepts a float bound as documented

---
 neuralcompression/functional/_lower_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index db9e008..855240b 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -39,7 +39,7 @@ class _LowerBound(Function):
     def forward(ctx, *args):
         x, bound, gradient = args
 
-        bound = bound.to(x.dtype)
+        bound = torch.as_tensor(bound, dtype=x.dtype, device=x.device)
 
         ctx.save_for_backward(
             x,
-- 
2.43.0


From 1f54126f83f17d2dd85553c6041cbd346683a043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:47 +0000
Subject: [PATCH 25/60] fix: RampConstCosineLRSchedule without a cosine phase
 survives steps past the end

---
 neuralcompression/optim/_ramp_const_cosine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/optim/_ramp_const_cosine.py b/neuralcompression/optim/_ramp_const_cosine.py
index 40b02b7..2e836c6 100644
--- a/neuralcompression/optim/_ramp_const_cosine.py
+++ b/neuralcompression/optim/_ramp_const_cosine.py
@@ -41,7 +41,7 @@ class RampConstCosineLRSchedule(LambdaLR):
             cosine_step = step - (self._max_steps - self._num_cosine_steps)
             if step < num_ramp_steps:
                 return max(min(step / num_ramp_steps, 1.0), min_val)
-            elif cosine_step > 0:
+            elif cosine_step > 0 and self._num_cosine_steps > 0:
                 angle = (cosine_step / self._num_cosine_steps) * math.pi / 2
                 return max(math.cos(angle), min_val)
             else:
-- 
2.43.0


From 6e013d9d678d6f930e93119489a6e328731e69be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:37 +0000
Subject: [PATCH 26/60] fix: VCT learning-rate schedules for long, empty or
 maximal ramps

---
 projects/torch_vct/utils/schedulers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/projects/torch_vct/utils/schedulers.py b/projects/torch_vct/utils/schedulers.py
index 4cc6689..c062743 100644
--- a/projects/torch_vct/utils/schedulers.py
+++ b/projects/torch_vct/utils/schedulers.py
@@ -47,17 +47,17 @@ class LinearRampCosineLR(torch.optim.lr_scheduler._LRScheduler):
                 + math.cos(
                     math.pi
                     * (self.last_epoch - self.ramp_len)  # type: ignore
-                    / (self.T_max - self.ramp_len - 1)
+                    / max(self.T_max - self.ramp_len - 1, 1)
                 )
             )
             / 2
             for base_lr in self.base_lrs  # type: ignore
         ]
         linear_lr = [
-            base_lr * (1 + self.last_epoch) / self.ramp_len  # type: ignore
+            base_lr * (1 + self.last_epoch) / max(self.ramp_len, 1)  # type: ignore
             for base_lr in self.base_lrs  # type: ignore
         ]
-        return [min(x, y) for x, y in zip(cosine_lr, linear_lr)]
+        return linear_lr if self.last_epoch < self.ramp_len else cosine_lr  # type: ignore
 
 
 class LinearRampLinearLR(torch.optim.lr_scheduler._LRScheduler):
@@ -89,7 +89,7 @@ class LinearRampLinearLR(torch.optim.lr_scheduler._LRScheduler):
 
     def _get_closed_form_lr(self):
         linear_lr = [
-            base_lr * (1 + self.last_epoch) / self.ramp_len  # type: ignore
+            base_lr * (1 + self.last_epoch) / max(self.ramp_len, 1)  # type: ignore
             for base_lr in self.base_lrs  # type: ignore
         ]
         return linear_lr if self.last_epoch < self.ramp_len else self.base_lrs  # type: ignore
@@ -134,7 +134,7 @@ class LinearWarmUpCosineLR(torch.optim.lr_scheduler._LRScheduler):
                 + math.cos(
                     math.pi
                     * (self.last_epoch - self.ramp_len)  # type: ignore
-                    / (self.T_max - self.ramp_len - 1)
+                    / max(self.T_max - self.ramp_len - 1, 1)
                 )
             )
             / 2
-- 
2.43.0


From baa476962bc922503eb9041c9ed73ab39e99ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:46 +0000
Subject: [PATCH 27/60] fix: Vimeo90kSeptuplet image mode works without a
 pil_transform as documented

---
 neuralcompression/data/_vimeo_90k_septuplet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neuralcompression/data/_vimeo_90k_septuplet.py b/neuralcompression/data/_vimeo_90k_septuplet.py
index 403ff13..54e7a58 100644
--- a/neuralcompression/data/_vimeo_90k_septuplet.py
+++ b/neuralcompression/data/_vimeo_90k_septuplet.py
@@ -110,6 +110,8 @@ class Vimeo90kSeptuplet(Dataset):
 
     def load_image(self, septuplet: Path, frame_number: int) -> Tensor:
         img_path = default_loader(str(septuplet / f"im{frame_number}.png"))
+        if self.pil_transform is None:
+            return img_path
         img = self.pil_transform(img_path)
         if not isinstance(img, Tensor):
             raise RuntimeError(
-- 
2.43.0


From d7fb2dc768a19a011c504703b945c8e3bd73932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:46 +0000
Subject: [PATCH 28/60] fix: Vimeo90kSeptuplet ignores blank lines in the split
 list

---
 neuralcompression/data/_vimeo_90k_septuplet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/data/_vimeo_90k_septuplet.py b/neuralcompression/data/_vimeo_90k_septuplet.py
index 54e7a58..e989e30 100644
--- a/neuralcompression/data/_vimeo_90k_septuplet.py
+++ b/neuralcompression/data/_vimeo_90k_septuplet.py
@@ -99,7 +99,9 @@ class Vimeo90kSeptuplet(Dataset):
 
             with open(self.root / f"sep_{split}list.txt", "r") as file:
                 self.folder_list = [
-                    "sequences/" + fname.strip() for fname in file.readlines()
+                    "sequences/" + fname.strip()
+                    for fname in file.readlines()
+                    if fname.strip()
                 ]
 
     def __len__(self) -> int:
-- 
2.43.0


From 343a6033b91d6e9ef5291359a9590ae947a695f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:46 +0000
Subject: [PATCH 29/60] fix: Kodak force_download works when the directory
 already exists

---
 neuralcompression/data/_kodak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/data/_kodak.py b/neuralcompression/data/_kodak.py
index 5c7a403..f83157e 100644
--- a/neuralcompression/data/_kodak.py
+++ b/neuralcompression/data/_kodak.py
@@ -83,7 +83,7 @@ class Kodak(Dataset):
                 " with dataset download anyways pass force_download=True"
             )
 
-        self.root.mkdir()
+        self.root.mkdir(exist_ok=force)
 
         for im_num in tqdm(range(1, num_imgs + 1), desc="Downloading Kodak images"):
             img_name = "kodim{:02}.png".format(im_num)
-- 
2.43.0


From 394f2bcc67c89554c443d06a00d4ce30e2979e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:46 +0000
Subject: [PATCH 30/60] fix: CLIC2020Image can download the val split again or
 after an interruption

---
 neuralcompression/data/_clic_2020_image.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/data/_clic_2020_image.py b/neuralcompression/data/_clic_2020_image.py
index b89fe8e..91e253f 100644
--- a/neuralcompression/data/_clic_2020_image.py
+++ b/neuralcompression/data/_clic_2020_image.py
@@ -118,7 +118,11 @@ class CLIC2020Image(Dataset):
         )
 
         if self.split == "val":
-            os.rename(self.root.joinpath("valid"), self.root.joinpath(self.split))
+            extracted = self.root.joinpath("valid")
+            self.root.joinpath(self.split).mkdir(exist_ok=True)
+            for path in extracted.iterdir():
+                os.replace(path, self.root.joinpath(self.split, path.name))
+            extracted.rmdir()
 
         if self.split in {"train", "val"}:
             shutil.rmtree(self.root.joinpath("__MACOSX"))
-- 
2.43.0


From 8c315fd1539114e8a1b22a237e15e5a8bf893605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:46 +0000
Subject: [PATCH 31/60] fix: CLIC2020Video orders videos and frames by name

---
 neuralcompression/data/_clic_2020_video.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 23302e6..46936ae 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -86,7 +86,7 @@ class CLIC2020Video(IterableDataset):
         if download:
             self.download()
 
-        self._video_paths = [Path(path.name) for path in self._root.glob("*")]
+        self._video_paths = sorted(Path(path.name) for path in self._root.glob("*"))
 
         self._video_sampler = video_sampler(self._video_paths)
 
@@ -98,9 +98,9 @@ class CLIC2020Video(IterableDataset):
         if self._current_video:
             video, index = self._current_video
         else:
-            video_frame_paths = [
-                *self._root.joinpath(self._video_paths[index]).glob("*_y.png")
-            ]
+            video_frame_paths = sorted(
+                self._root.joinpath(self._video_paths[index]).glob("*_y.png")
+            )
 
             video = FrameVideo.from_frame_paths(
                 video_frame_paths,
-- 
2.43.0


From 4a26ee15fcda2d569e01d556a7b53500e63a585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:46 +0000
Subject: [PATCH 32/60] fix: CLIC2020Video yields every clip of every video and
 can be iterated again

---
 neuralcompression/data/_clic_2020_video.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 46936ae..5fdae2e 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -145,6 +145,11 @@ class CLIC2020Video(IterableDataset):
         return sample
 
     def __iter__(self):
+        self._video_sampler_iterator = None
+        self._current_video = None
+        self._next_clip_start_sec = 0.0
+        self._clip_sampler.reset()
+
         return self
 
     def __next__(self) -> Dict:
@@ -155,6 +160,9 @@ class CLIC2020Video(IterableDataset):
                 ),
             )
 
+        if self._current_video:
+            return self[self._current_video[1]]
+
         index = next(self._video_sampler_iterator)
 
         return self[index]
-- 
2.43.0


From c9f4acebf9f95ed8e1861521bcbafe9ca88b40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:02 +0000
Subject: [PATCH 33/60] fix: CLIC2020Video workers share one random video order

---
 neuralcompression/data/_clic_2020_video.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 5fdae2e..449b4a4 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -150,6 +150,13 @@ class CLIC2020Video(IterableDataset):
         self._next_clip_start_sec = 0.0
         self._clip_sampler.reset()
 
+        # every DataLoader worker must shard the same random permutation
+        worker_info = torch.utils.data.get_worker_info()
+        if worker_info is not None and isinstance(self._video_sampler, RandomSampler):
+            generator = torch.Generator()
+            generator.manual_seed(worker_info.seed - worker_info.id)
+            self._video_sampler.generator = generator
+
         return self
 
     def __next__(self) -> Dict:
-- 
2.43.0


From 647459ec06b99186c40715447c3a76a124648436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:23 +0000
Subject: [PATCH 34/60] fix: jax_arithmetic_coder.encode reports an output that
 does not fit its buffer

---
 projects/jax_entropy_coders/jax_arithmetic_coder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/jax_entropy_coders/jax_arithmetic_coder.py b/projects/jax_entropy_coders/jax_arithmetic_coder.py
index 3c712e4..a760d4e 100644
--- a/projects/jax_entropy_coders/jax_arithmetic_coder.py
+++ b/projects/jax_entropy_coders/jax_arithmetic_coder.py
@@ -579,7 +579,7 @@ def encode(
 
     bits, num_bytes = map_fun(messages, init_cdf_states)
 
-    if any([i > len(b) for b, i in zip(bits, num_bytes)]):
+    if any([i >= len(b) for b, i in zip(bits, num_bytes)]):
         raise RuntimeError("Message buffer overrun - try increasing buffer_oversize.")
 
     bits = [bytes(b[: i + 1]) for b, i in zip(bits, num_bytes)]
-- 
2.43.0


From a5919b329ac4c4a2a7395cddaa14158334f853b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:23 +0000
Subject: [PATCH 35/60] fix: craystack fixed_array_cdf_codec no longer wraps
 its cdf for small symbol dtypes

---
 projects/jax_entropy_coders/craystack/codecs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/jax_entropy_coders/craystack/codecs.py b/projects/jax_entropy_coders/craystack/codecs.py
index 118903c..5fac9e5 100644
--- a/projects/jax_entropy_coders/craystack/codecs.py
+++ b/projects/jax_entropy_coders/craystack/codecs.py
@@ -86,8 +86,9 @@ def fixed_array_cdf_codec(
         return jnp.take_along_axis(cdf, symbols[..., None], -1)[..., 0]
 
     def cdf_fun(symbols, cdf_state):
+        # symbols + 1 would wrap around for the last symbol of a full dtype
         cdf = cdf_state[0]
-        return _lookup(cdf, symbols), _lookup(cdf, symbols + 1), cdf_state
+        return _lookup(cdf, symbols), _lookup(cdf[..., 1:], symbols), cdf_state
 
     def inverse_cdf_fun(cdf_value, cdf_state):
         cdf = cdf_state[0]
-- 
2.43.0


From e189982c0cbf29c482426945705e57868e74c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:23 +0000
Subject: [PATCH 36/60] fix: OASIS loss accepts channels-last and other
 non-contiguous logits

---
 neuralcompression/loss_fn/_oasis_loss.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/neuralcompression/loss_fn/_oasis_loss.py b/neuralcompression/loss_fn/_oasis_loss.py
index 11073b5..58fbe2e 100644
--- a/neuralcompression/loss_fn/_oasis_loss.py
+++ b/neuralcompression/loss_fn/_oasis_loss.py
@@ -62,11 +62,13 @@ class OASISDiscriminatorLoss(DiscriminatorLoss):
 
         batch_size, num_classes, _, _ = real_logits.shape
 
-        target = target.view(batch_size, -1)
+        target = target.reshape(batch_size, -1)
         return 0.5 * (
-            F.cross_entropy(real_logits.view(batch_size, num_classes, -1), target + 1)
+            F.cross_entropy(
+                real_logits.reshape(batch_size, num_classes, -1), target + 1
+            )
             + F.cross_entropy(
-                fake_logits.view(batch_size, num_classes, -1),
+                fake_logits.reshape(batch_size, num_classes, -1),
                 torch.zeros_like(target),
             )
         )
@@ -105,5 +107,5 @@ class OASISGeneratorLoss(GeneratorLoss):
 
         batch_size, num_classes, _, _ = logits.shape
 
-        target = target.view(batch_size, -1)
-        return F.cross_entropy(logits.view(batch_size, num_classes, -1), target + 1)
+        target = target.reshape(batch_size, -1)
+        return F.cross_entropy(logits.reshape(batch_size, num_classes, -1), target + 1)
-- 
2.43.0


From c82c5325e25c20319c44fb5c3dce01f3fcc5ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:23 +0000
Subject: [PATCH 37/60] fix: UNetDiscriminator supports every documented
 downsampling factor

---
 neuralcompression/models/_unet_discriminator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/models/_unet_discriminator.py b/neuralcompression/models/_unet_discriminator.py
index 6b07511..2407e63 100644
--- a/neuralcompression/models/_unet_discriminator.py
+++ b/neuralcompression/models/_unet_discriminator.py
@@ -213,6 +213,10 @@ class UnetDiscriminator(Discriminator):
         model: nn.Module = nn.Identity()
         lastchan = self.channels[-1]
         num_upsamples = len(self.channels) - 1 - num_downsamples
+        if num_upsamples < 0:
+            raise ValueError(
+                "output_downsampling_factor exceeds the total downsampling of the U-Net"
+            )
         clip_upsample = False
         for count, chan in enumerate(reversed(self.channels[1:-1])):
             if count == num_upsamples:
@@ -234,11 +238,14 @@ class UnetDiscriminator(Discriminator):
             out_planes=64,
             child=model,
             top=True,
-            clip_upsample=clip_upsample,
+            clip_upsample=num_downsamples > 0,
             norm_type=norm_type,
         )
 
-        self.model = nn.Sequential(model, nn.Conv2d(64, output_channels, 1, 1, 0))
+        final_chans = 64 if num_upsamples > 0 else self.channels[-1]
+        self.model = nn.Sequential(
+            model, nn.Conv2d(final_chans, output_channels, 1, 1, 0)
+        )
 
     @property
     def is_conditional(self) -> bool:
-- 
2.43.0


From 7e903ba61dbc846661569392c6f3d44d62acf85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:23 +0000
Subject: [PATCH 38/60] fix: information_content with batch_el reshapes any
 layout

---
 neuralcompression/functional/_information_content.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_information_content.py b/neuralcompression/functional/_information_content.py
index f9dfc65..cd1544b 100644
--- a/neuralcompression/functional/_information_content.py
+++ b/neuralcompression/functional/_information_content.py
@@ -43,7 +43,9 @@ def information_content(
     if reduction == "sum":
         natural = torch.sum(torch.log(probabilities))
     elif reduction == "batch_el":
-        natural = torch.log(probabilities).view(probabilities.shape[0], -1).sum(dim=-1)
+        natural = (
+            torch.log(probabilities).reshape(probabilities.shape[0], -1).sum(dim=-1)
+        )
     elif reduction == "none":
         natural = torch.log(probabilities)
 
-- 
2.43.0


From ae0eeb45f3835676ff66f5f6ed3fb5c7f6ffc225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:23 +0000
Subject: [PATCH 39/60] fix: illm bit counting accepts non-contiguous
 likelihoods

---
 projects/illm/target_compression_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/illm/target_compression_module.py b/projects/illm/target_compression_module.py
index cbd6c88..e456f37 100644
--- a/projects/illm/target_compression_module.py
+++ b/projects/illm/target_compression_module.py
@@ -83,7 +83,7 @@ class TargetRateCompressionModule(ImageModule):
 
     def _calc_bits_per_batch(self, likelihoods: Tensor) -> Tensor:
         batch_size = likelihoods.shape[0]
-        likelihoods = likelihoods.view(batch_size, -1)
+        likelihoods = likelihoods.reshape(batch_size, -1)
         return likelihoods.log().sum(1) / -math.log(2)
 
     def rate_loss(
-- 
2.43.0


From 33c1695a8cb26637993e33103a2913f40f41ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:23 +0000
Subject: [PATCH 40/60] fix: GAN discriminator step and evaluation use
 run_discriminator

---
 projects/illm/gan_compression_module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/illm/gan_compression_module.py b/projects/illm/gan_compression_module.py
index bfd406c..f4bbfb7 100644
--- a/projects/illm/gan_compression_module.py
+++ b/projects/illm/gan_compression_module.py
@@ -166,8 +166,10 @@ class GANCompressionModule(TargetRateCompressionModule):
         else:
             disc_output = output
 
-        fake_logits = self.discriminator(output.image.detach(), output.latent.detach())
-        real_logits = self.discriminator(disc_images, disc_output.latent.detach())
+        fake_logits = self.run_discriminator(
+            output.image.detach(), output.latent.detach()
+        )
+        real_logits = self.run_discriminator(disc_images, disc_output.latent.detach())
 
         disc_loss = self.discriminator_loss(
             real_logits=real_logits, fake_logits=fake_logits, target=real_target
@@ -233,7 +235,7 @@ class GANCompressionModule(TargetRateCompressionModule):
 
         # generator loss
         g_loss = self.generator_loss(
-            self.discriminator(output.image, output.latent), target
+            self.run_discriminator(output.image, output.latent), target
         )
 
         # rate loss
-- 
2.43.0


From 9df9c15bbbb3fbf0335eeb825dfc677ccfbc0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:23 +0000
Subject: [PATCH 41/60] fix: illm image logging accepts channels-last images

---
 projects/illm/image_module.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/projects/illm/image_module.py b/projects/illm/image_module.py
index 686c8bf..d86f7af 100644
--- a/projects/illm/image_module.py
+++ b/projects/illm/image_module.py
@@ -149,8 +149,8 @@ class ImageModule(LightningModule):
                 self.train_psnr(rescaled_pred, rescaled_input_images)
                 self.train_msssim(rescaled_pred, rescaled_input_images)
                 self.train_mse(
-                    rescaled_pred.view(batch_size, -1),
-                    rescaled_input_images.view(batch_size, -1),
+                    rescaled_pred.reshape(batch_size, -1),
+                    rescaled_input_images.reshape(batch_size, -1),
                 )
             self.log(f"{prefix}/psnr", self.train_psnr, prog_bar=True)
             self.log(f"{prefix}/mse", self.train_mse, prog_bar=True)
@@ -159,8 +159,8 @@ class ImageModule(LightningModule):
             self.eval_psnr(rescaled_pred, rescaled_input_images)
             self.eval_msssim(rescaled_pred, rescaled_input_images)
             mse_val = self.eval_mse(
-                rescaled_pred.view(batch_size, -1),
-                rescaled_input_images.view(batch_size, -1),
+                rescaled_pred.reshape(batch_size, -1),
+                rescaled_input_images.reshape(batch_size, -1),
             )
             lpips_val = self.eval_lpips(pred, input_images)
             hific_distortion = (
@@ -193,8 +193,8 @@ class ImageModule(LightningModule):
             psnr_val = ncm.calc_psnr(rescaled_pred, rescaled_input_images)
             self.test_msssim(rescaled_pred, rescaled_input_images)
             mse_val = self.test_mse(
-                rescaled_pred.view(batch_size, -1),
-                rescaled_input_images.view(batch_size, -1),
+                rescaled_pred.reshape(batch_size, -1),
+                rescaled_input_images.reshape(batch_size, -1),
             )
             lpips_val = self.test_lpips(pred, input_images)
             self.test_dists(pred, input_images)
-- 
2.43.0


From 93ee0d638185e65345f313d6c5fdc91b2ac9e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:37 +0000
Subject: [PATCH 42/60] fix: craystack tail_pop leaves the stack intact when it
 creates bits on demand

---
 .../jax_entropy_coders/craystack/_backend.py  | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/projects/jax_entropy_coders/craystack/_backend.py b/projects/jax_entropy_coders/craystack/_backend.py
index 742a2e2..d8efd79 100644
--- a/projects/jax_entropy_coders/craystack/_backend.py
+++ b/projects/jax_entropy_coders/craystack/_backend.py
@@ -161,23 +161,25 @@ def tail_pop(
     limit, data = tail
     unsorted = lax.sort_key_val(pop_indices_flat, jnp.arange(pop_indices.size))[1]
 
+    limit = limit + pop_indices.sum()
+    # here we return a slice containing the information in the pop indices
+    # we don't actually need to pop the values from the array - instead we just
+    # move the pointer along and remove the popped values at the end
+    # bits created on demand lie below the bottom of the stack, i.e., they come
+    # after all the information that is still in the stack
+    popped = lax.dynamic_slice(
+        jnp.concatenate((data, data[: pop_indices.size])),
+        limit - pop_indices.size,
+        pop_indices_flat.shape,  # type: ignore
+    )
     limit = lax.cond(
         allow_empty_pop,
-        lambda _: jnp.clip(limit + pop_indices.sum(), 0, len(data)),
-        lambda _: limit + pop_indices.sum(),
+        lambda _: jnp.clip(limit, 0, len(data)),
+        lambda _: limit,
         None,
     )
-    # here we return a slice containing the information in the pop indices
-    # we don't actually need to pop the values from the array - instead we just
-    # move the pointer along and remove the popped values at the end
     return CrayTail(limit, data), jnp.reshape(
-        lax.sort_key_val(
-            unsorted,
-            lax.dynamic_slice(
-                data, limit - pop_indices.size, pop_indices_flat.shape  # type: ignore
-            ),
-        )[1],
-        pop_indices.shape,
+        lax.sort_key_val(unsorted, popped)[1], pop_indices.shape
     )
 
 
-- 
2.43.0


From 0171ec9432041bdc9e504b4ca9be9e91629196cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:37 +0000
Subject: [PATCH 43/60] fix: craystack encode rejects start buffers it cannot
 extend

---
 projects/jax_entropy_coders/craystack/_backend.py | 3 +++
 projects/jax_entropy_coders/craystack/coder.py    | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/projects/jax_entropy_coders/craystack/_backend.py b/projects/jax_entropy_coders/craystack/_backend.py
index d8efd79..94c8dab 100644
--- a/projects/jax_entropy_coders/craystack/_backend.py
+++ b/projects/jax_entropy_coders/craystack/_backend.py
@@ -355,6 +355,9 @@ def insert_zeros(
     needed_zeros = tail_capacity - splits[1].shape[0]
     tail_limit = needed_zeros + 1
 
+    if splits[0].shape[0] < head_size:
+        raise ValueError("buffer is too short for the head of the message.")
+
     if needed_zeros < 0:
         raise ValueError("tail_capacity insufficient for needed buffer size.")
 
diff --git a/projects/jax_entropy_coders/craystack/coder.py b/projects/jax_entropy_coders/craystack/coder.py
index 4dfb473..9241d7f 100644
--- a/projects/jax_entropy_coders/craystack/coder.py
+++ b/projects/jax_entropy_coders/craystack/coder.py
@@ -192,6 +192,15 @@ def encode(
         )
         tail_limits -= 1  # make sure we don't overwrite info
 
+        # the first bytes of the buffers are the highest bytes of the heads,
+        # which rANS requires to be at least HEAD_MIN
+        num_heads = int(jnp.prod(jnp.array(messages.shape[2:])))
+        if (message_buffers[:, :num_heads] == 0).any():
+            raise ValueError(
+                "start_buffers cannot be extended with this interleave level - "
+                "it should not be larger than the one they were encoded with."
+            )
+
     def vmap_fun(message, message_buffer, tail_limit, init_cdf_state):
         return _jax_encode(
             message,
-- 
2.43.0


From abcec36a59ed19275f61815dfffc5332f14fb9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:20 +0000
Subject: [PATCH 44/60] fix: BitsBackCodec statistics survive saving and
 loading

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index 55787a2..becd85a 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -654,7 +654,7 @@ class BitsBackCodec:
         return {
             "flat_message": self.flat_message,
             "data_count": self.data_count,
-            "extr_bytes": self.extra_bytes,
+            "extra_bytes": self.extra_bytes,
             "push_bytes": self.push_bytes,
             "pop_bytes": self.pop_bytes,
             "initial_bytes": self.initial_bytes,
-- 
2.43.0


From 51d0b729772b77ea285ac54a5e856ae1d0d63401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:20 +0000
Subject: [PATCH 45/60] fix: diffusion codec centres its bins on the data
 levels for every data range

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index becd85a..a8881b6 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -703,8 +703,9 @@ def diag_gaussian_unif_bins(
         discretized using uniform bins.
     """
     n_bins = 1 << bin_prec
-    bin_min = data_min - 1 / (n_bins - 1)
-    bin_max = data_max + 1 / (n_bins - 1)
+    half_bin = (data_max - data_min) / (2 * (n_bins - 1))
+    bin_min = data_min - half_bin
+    bin_max = data_max + half_bin
 
     bins = np.linspace(bin_min, bin_max, n_bins + 1)
     bins = np.broadcast_to(np.moveaxis(bins, 0, -1), mean.shape + (n_bins + 1,))
-- 
2.43.0


From 605eca3a7af1126d98e3abe77b46c2fdc37216d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:59 +0000
Subject: [PATCH 46/60] fix: DVC validation counts the I-frame in its
 group-of-pictures rate

---
 projects/deep_video_compression/dvc_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index b849609..894516c 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -277,18 +277,18 @@ class DvcModule(LightningModule):
 
     def validation_step(self, batch, batch_idx):
         log_key = f"{self.training_stage}/val_"
+        batch, iframe_bpp = self.compress_iframe(batch)  # bpp_total w/o grads
         # gop = "Group of Pictures"
         logging_metrics = LoggingMetrics(
             gop_total_loss=0,
             gop_distortion_loss=0,
-            gop_bpp=0,
+            gop_bpp=iframe_bpp,
             gop_flow_bpp=0,
             gop_residual_bpp=0,
         )
         image2_list = []
         image2_est_list = []
 
-        batch, gop_bpp = self.compress_iframe(batch)  # bpp_total w/o grads
         image1 = batch[:, 0]
         for i in range(self.num_pframes):
             image2 = batch[:, i + 1]
-- 
2.43.0


From 2749b880c65e2e4b53028e6d051c8df587904bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:59 +0000
Subject: [PATCH 47/60] fix: DVC I-frame compression leaves the caller's batch
 untouched

---
 projects/deep_video_compression/dvc_module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index 894516c..9b42a11 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -141,6 +141,7 @@ class DvcModule(LightningModule):
         with torch.no_grad():
             output = self.iframe_model(batch[:, 0])
 
+        batch = batch.clone()  # the caller keeps the original frames
         batch[:, 0] = output["x_hat"]
         num_pixels = batch.shape[0] * batch.shape[-2] * batch.shape[-1]
         bpp_loss = sum(
-- 
2.43.0


From 75a4225ff66d3cb91bbd95b96fc3020cb912407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:59 +0000
Subject: [PATCH 48/60] fix: VCT integer PSNR no longer wraps around in 8-bit
 arithmetic

---
 projects/torch_vct/model_lightning.py | 29 +++++++++++++--------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/projects/torch_vct/model_lightning.py b/projects/torch_vct/model_lightning.py
index 4e34f19..d20eb1e 100644
--- a/projects/torch_vct/model_lightning.py
+++ b/projects/torch_vct/model_lightning.py
@@ -17,6 +17,11 @@ from torchmetrics.functional import peak_signal_noise_ratio
 from utils.hydra_tools import OmegaConf  # ! Needed for resolvets to take effect
 
 
+def _to_255_levels(images: Tensor) -> Tensor:
+    """Rounds images to 8-bit levels, as floats (uint8 differences would wrap)."""
+    return (images.clamp(0.0, 1.0) * 255 + 0.5).floor()
+
+
 class VCTModule(pytorch_lightning.LightningModule):
     """Encapsulates model + loss + optimizer + metrics in a PL module"""
 
@@ -65,8 +70,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                 recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
             ).item()
             psnr_int = peak_signal_noise_ratio(
-                (recon_frames * 255 + 0.5).to(torch.uint8),
-                (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                _to_255_levels(recon_frames),
+                _to_255_levels(batch.video_tensor),
                 data_range=255,
                 dim=(2, 3, 4),
             ).item()
@@ -107,8 +112,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                     recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
                 ).item(),
                 "val_PSNR_int": peak_signal_noise_ratio(
-                    (recon_frames * 255 + 0.5).to(torch.uint8),
-                    (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                    _to_255_levels(recon_frames),
+                    _to_255_levels(batch.video_tensor),
                     data_range=255,
                     dim=(2, 3, 4),
                 ).item(),
@@ -127,18 +132,16 @@ class VCTModule(pytorch_lightning.LightningModule):
         assert self.training is False
 
         with torch.no_grad():
-            video_ref_uint8 = (batch.video_tensor[0] * 255 + 0.5).to(torch.uint8)
+            video_ref_255 = _to_255_levels(batch.video_tensor[0])
             if run_fwd:
                 self.model._code_to_strings = False
                 forward_pass = self.model(batch)
                 recon, rate_args = forward_pass[-2], forward_pass[-1][0]
 
-                # take the single batch and clamp it:
-                recon_clamped = torch.clamp(recon[0], 0.0, 1.0)
+                # take the single batch (it is clamped)
                 # caveat: real compression people use YCbCr
-                recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
                 cts_psnr = peak_signal_noise_ratio(
-                    recon_uint8, video_ref_uint8, data_range=255
+                    _to_255_levels(recon[0]), video_ref_255, data_range=255
                 ).item()
                 cts_rate = self.model.compute_rate(rate_args).item() / (H * W * T)
                 # Compute the rate excluding the first frame since we are technically
@@ -161,14 +164,10 @@ class VCTModule(pytorch_lightning.LightningModule):
             recon = self.model.decompress_video(
                 batch.shape, bottleneck_args=output, force_cpu=False
             )
-            # clamp the reconstructed video (it's batch size 1, so pick [0])
-            recon_clamped = torch.clamp(recon[0], 0.0, 1.0)
-
-            # PSNR
+            # PSNR (it's batch size 1, so pick [0]; the video is clamped)
             # caveat: real compression people use YCbCr
-            recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
             psnr = peak_signal_noise_ratio(
-                recon_uint8, video_ref_uint8, data_range=255
+                _to_255_levels(recon[0]), video_ref_255, data_range=255
             ).item()
             # bits per pixel
             bpp = sum(bits_per_frame) / (H * W * T)
-- 
2.43.0


From d9ebf94a0b852994ee64abb23b1f9fe233ae0fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:59 +0000
Subject: [PATCH 49/60] fix: UVG normalisation uses the image transform its
 frames need

---
 projects/torch_vct/datamodules/uvg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/torch_vct/datamodules/uvg.py b/projects/torch_vct/datamodules/uvg.py
index eacd297..34ca0a4 100644
--- a/projects/torch_vct/datamodules/uvg.py
+++ b/projects/torch_vct/datamodules/uvg.py
@@ -10,8 +10,7 @@ import torch.utils.data
 import torchvision
 from datamodules.video_data_api import VideoDataset
 from pytorch_lightning import LightningDataModule
-from pytorchvideo.transforms import Normalize
-from torchvision.transforms import Compose, ToTensor
+from torchvision.transforms import Compose, Normalize, ToTensor
 
 
 class UVGDataModule(LightningDataModule):
-- 
2.43.0


From 02a37f9dfae39fb132b62df2efcf4758c675473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:59 +0000
Subject: [PATCH 50/60] fix: OpenImages training loader works without worker
 processes

---
 projects/illm/open_images_datamodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/illm/open_images_datamodule.py b/projects/illm/open_images_datamodule.py
index 27573d6..98a01e7 100644
--- a/projects/illm/open_images_datamodule.py
+++ b/projects/illm/open_images_datamodule.py
@@ -73,7 +73,7 @@ class OpenImagesDataModule(LightningDataModule):
             shuffle=True,
             num_workers=self.workers,
             pin_memory=self.pin_memory,
-            prefetch_factor=2,
+            prefetch_factor=2 if self.workers > 0 else None,
         )
 
     def val_dataloader(self):
-- 
2.43.0


From 8a3431e3fc54d663015c553ed04f0541a76c65c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:59 +0000
Subject: [PATCH 51/60] fix: interrupted CIFAR-10 dumps are not taken for
 complete splits

---
 projects/bits_back_diffusion/datasets/cifar10.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/projects/bits_back_diffusion/datasets/cifar10.py b/projects/bits_back_diffusion/datasets/cifar10.py
index f3c65bd..381a25e 100644
--- a/projects/bits_back_diffusion/datasets/cifar10.py
+++ b/projects/bits_back_diffusion/datasets/cifar10.py
@@ -11,6 +11,7 @@ Adapted from `improved-diffusion.datasets.cifar10`
 """
 import argparse
 import logging
+import shutil
 import tempfile
 from pathlib import Path
 
@@ -66,11 +67,17 @@ def main():
         assert len(dataset) == SIZE[split]
 
         logger.info("dumping images...")
-        split_dir.mkdir(parents=True, exist_ok=True)
+        # only a complete dump gets the name that later runs skip
+        part_dir = out_dir / f"{split}_32x32.part"
+        shutil.rmtree(part_dir, ignore_errors=True)
+        part_dir.mkdir(parents=True)
         for i in tqdm(range(len(dataset))):
             image, label = dataset[i]
-            filename = split_dir / f"{CLASSES[label]}_{i:05d}.png"
+            filename = part_dir / f"{CLASSES[label]}_{i:05d}.png"
             image.save(filename)
+        if split_dir.is_dir():
+            shutil.rmtree(split_dir)
+        part_dir.rename(split_dir)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From c0431c9c70b4caf1948a31620fb59c74bedd6986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:59 +0000
Subject: [PATCH 52/60] fix: interrupted image-log cache writes do not break
 later runs

---
 projects/illm/train.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/illm/train.py b/projects/illm/train.py
index 985b75e..0a00458 100644
--- a/projects/illm/train.py
+++ b/projects/illm/train.py
@@ -6,6 +6,7 @@
 import hashlib
 import logging
 import math
+import os
 import pickle
 from pathlib import Path
 from typing import List, Optional, Tuple, Union
@@ -241,7 +242,9 @@ def build_wandb_image_logger(cfg: DictConfig, data_module: OpenImagesDataModule)
         eval_log_images = torch.stack(
             [data_module.eval_dataset[ind] for ind in cfg.image_logs.val_log_indices]
         )
-        with open(pkl_file, "wb") as f:
+        # readers must never see a partly written cache
+        part_file = pkl_file.with_suffix(f".{os.getpid()}.part")
+        with open(part_file, "wb") as f:
             pickle.dump(
                 {
                     "train_log_images": train_log_images,
@@ -249,6 +252,7 @@ def build_wandb_image_logger(cfg: DictConfig, data_module: OpenImagesDataModule)
                 },
                 f,
             )
+        os.replace(part_file, pkl_file)
 
     return WandbImageCallback(train_log_images, eval_log_images)
 
-- 
2.43.0


From 3430490ad0191b76de6f18cd1a04fb889320a83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:39 +0000
Subject: [PATCH 53/60] fix: VCT training with overwrite=True does not resume
 from the ignored checkpoint

---
 projects/torch_vct/model_train.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/model_train.py b/projects/torch_vct/model_train.py
index 794bc6c..3481adf 100644
--- a/projects/torch_vct/model_train.py
+++ b/projects/torch_vct/model_train.py
@@ -102,7 +102,11 @@ def main(cfg: DictConfig) -> None:
 
     save_dir.mkdir(exist_ok=True, parents=True)
     last_checkpoint = save_dir / "last.ckpt"
-    if last_checkpoint.exists() and cfg.checkpoint.resume_training:
+    if (
+        last_checkpoint.exists()
+        and cfg.checkpoint.resume_training
+        and not cfg.checkpoint.overwrite
+    ):
         print(f"Resuming training from last checkpoint = {last_checkpoint}.")
     else:
         print(f"Initialising new model.")
-- 
2.43.0


From a0d518b6a3a2a919667ea7f9d8dd206b3eb83433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:19 +0000
Subject: [PATCH 54/60] fix: an interrupted CIFAR-10 overwrite never leaves a
 partial split

---
 projects/bits_back_diffusion/datasets/cifar10.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/datasets/cifar10.py b/projects/bits_back_diffusion/datasets/cifar10.py
index 381a25e..1462cc4 100644
--- a/projects/bits_back_diffusion/datasets/cifar10.py
+++ b/projects/bits_back_diffusion/datasets/cifar10.py
@@ -75,9 +75,12 @@ def main():
             image, label = dataset[i]
             filename = part_dir / f"{CLASSES[label]}_{i:05d}.png"
             image.save(filename)
+        old_dir = out_dir / f"{split}_32x32.old"
+        shutil.rmtree(old_dir, ignore_errors=True)
         if split_dir.is_dir():
-            shutil.rmtree(split_dir)
+            split_dir.rename(old_dir)
         part_dir.rename(split_dir)
+        shutil.rmtree(old_dir, ignore_errors=True)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 230de01e57661a3a59fb374abf328b6ab5788945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:59 +0000
Subject: [PATCH 55/60] fix: illm ranks do not collide on creating the
 image-log cache directory

---
 projects/illm/train.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/illm/train.py b/projects/illm/train.py
index 0a00458..77a2385 100644
--- a/projects/illm/train.py
+++ b/projects/illm/train.py
@@ -220,8 +220,7 @@ def build_module(cfg: DictConfig) -> ImageModule:
 def build_wandb_image_logger(cfg: DictConfig, data_module: OpenImagesDataModule):
     """Construct logger for sending images to wandb."""
     log_cache_dir = Path(cfg.image_logs.log_cache_dir)
-    if not log_cache_dir.exists():
-        log_cache_dir.mkdir(parents=True)
+    log_cache_dir.mkdir(parents=True, exist_ok=True)
 
     sha = hashlib.sha256()
     sha.update(str(cfg.data._target_).encode())
-- 
2.43.0


From bdf1dd1c777a3c1f22ccd88b5ce6929b1e68af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:03 +0000
Subject: [PATCH 56/60] fix: write codec checkpoints of the diffusion coder
 atomically

A run interrupted while saving left a partial encode or decode checkpoint
that every later run picked as the newest one and failed to load.
---
 projects/bits_back_diffusion/encode.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/projects/bits_back_diffusion/encode.py b/projects/bits_back_diffusion/encode.py
index b7bf816..1c5ba74 100644
--- a/projects/bits_back_diffusion/encode.py
+++ b/projects/bits_back_diffusion/encode.py
@@ -15,6 +15,7 @@ Usage (1 GPU, pretrained model, Cifar10):
 When using multiprocessing, each process independently
 compresses a subset of the data.
 """
+import os
 from itertools import islice
 from pathlib import Path
 from typing import Dict, Iterator, List, Tuple, Union
@@ -89,6 +90,20 @@ def main(cfg: DictConfig):
     logger.log("completed")
 
 
+def save_checkpoint(codec: BitsBackCodec, path: Path):
+    """
+    Save the state of a codec such that no partly written checkpoint is found.
+
+    Args:
+        codec: Codec to save.
+        path: Path of the checkpoint.
+    """
+    part_path = path.with_suffix(".part")
+    with open(part_path, "wb") as f:
+        np.savez(f, **codec.state_dict())
+    os.replace(part_path, path)
+
+
 def encode(
     codec: BitsBackCodec,
     dataloader: Iterator[Tuple[torch.Tensor, dict]],
@@ -144,7 +159,7 @@ def encode(
             or stats.samples % save_interval < codec.data_shape[0]
         ):
             ckpt_path = Path(logger.get_dir()) / f"encode-ckpt{stats.samples:06d}.npz"
-            np.savez(ckpt_path, **codec.state_dict())
+            save_checkpoint(codec, ckpt_path)
 
     if codec.track:
         # log rates
@@ -184,7 +199,7 @@ def decode(codec: BitsBackCodec, save_dir: Union[str, Path], save_interval: int)
         # checkpoint
         if num_remaining % save_interval < codec.data_shape[0]:
             ckpt_path = save_dir / f"decode-ckpt{-num_remaining:06d}.npz"
-            np.savez(ckpt_path, **codec.state_dict())
+            save_checkpoint(codec, ckpt_path)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 594835615dc6fb2ab232ed49f40d852c5f72f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:03 +0000
Subject: [PATCH 57/60] fix: drop decode checkpoints before encoding further
 samples

A run for more samples found the decode checkpoints of the shorter message,
took its decoding for finished and checked none of the samples.
---
 projects/bits_back_diffusion/encode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/bits_back_diffusion/encode.py b/projects/bits_back_diffusion/encode.py
index 1c5ba74..9a5f672 100644
--- a/projects/bits_back_diffusion/encode.py
+++ b/projects/bits_back_diffusion/encode.py
@@ -61,6 +61,9 @@ def main(cfg: DictConfig):
         < cfg.evaluator.num_samples
     ):
         logger.log(f"encode with model checkpoint {cfg.evaluator.model_path}...")
+        # decode checkpoints of a shorter message do not cover the extended one
+        for stale_path in Path(logger.get_dir()).glob("decode-ckpt*.npz"):
+            stale_path.unlink()
         encode(
             codec,
             islice(dataloader, codec.data_count, None),
-- 
2.43.0


From ef03946c6a9e7835c21684e438c66c52d7c35af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 58/60] fix: keep the configured model, with its frozen parts,
 when loading torchhub weights

---
 projects/illm/train.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/illm/train.py b/projects/illm/train.py
index 77a2385..5223a9f 100644
--- a/projects/illm/train.py
+++ b/projects/illm/train.py
@@ -130,9 +130,11 @@ def configure_and_load_state_dict(model: nn.Module, cfg: DictConfig):
     if cfg.get("torchhub") is not None:
         LOGGER.info("Loading model from torchhub")
 
-        model = torch.hub.load(
+        pretrained_model = torch.hub.load(
             cfg.torchhub.github, cfg.torchhub.model, force_reload=True
         )
+        # keep the configured model, e.g. with its frozen parts
+        model.load_state_dict(pretrained_model.state_dict())
     else:
         LOGGER.info("Loading pretrained projector from " f"{cfg.path}")
         state_dict = pretrained_state_dict(cfg.path)
-- 
2.43.0


From b1e107a3cd02bdcd3390428a3994287e4822a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:45 +0000
Subject: [PATCH 59/60] fix: load DVC states that were stored with their coding
 tables

---
 neuralcompression/models/deep_video_compression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/models/deep_video_compression.py b/neuralcompression/models/deep_video_compression.py
index 425d2fe..1fe4324 100644
--- a/neuralcompression/models/deep_video_compression.py
+++ b/neuralcompression/models/deep_video_compression.py
@@ -18,6 +18,7 @@ from typing import Any, List, NamedTuple, Optional, Sequence, Tuple
 import torch
 import torch.nn.functional as F
 from compressai.entropy_models import EntropyBottleneck
+from compressai.models import CompressionModel
 from torch import Tensor, nn
 
 import neuralcompression.functional as ncF
@@ -65,7 +66,7 @@ class DVCTrainOutput(NamedTuple):
     resid_probabilities: Tensor
 
 
-class DVC(nn.Module):
+class DVC(CompressionModel):
     """
     Deep Video Compression composition class.
 
-- 
2.43.0


From 6a8d2d23e6536077074e60144285b1633690c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:45 +0000
Subject: [PATCH 60/60] fix: load VCT states that were stored with their coding
 tables

---
 projects/torch_vct/neural/bottlenecks.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/projects/torch_vct/neural/bottlenecks.py b/projects/torch_vct/neural/bottlenecks.py
index 27e5a2f..6f6ce01 100644
--- a/projects/torch_vct/neural/bottlenecks.py
+++ b/projects/torch_vct/neural/bottlenecks.py
@@ -114,6 +114,14 @@ class ContinuousIndexedGaussianConditional(EntropyModel):
         self.register_buffer("_prior_scale", torch.Tensor())
         self._prior_dtype = torch.float32
 
+    def _load_from_state_dict(self, state_dict, prefix, *args, **kwargs):
+        # the tables only get their size in `update_tables`
+        for name, table in self.named_buffers(recurse=False):
+            stored = state_dict.get(prefix + name)
+            if stored is not None and stored.shape != table.shape:
+                setattr(self, name, table.new_empty(stored.shape))
+        super()._load_from_state_dict(state_dict, prefix, *args, **kwargs)
+
     def _get_prior_params(
         self, means_idx: Tensor, scales_idx: Tensor
     ) -> Tuple[Tensor, Tensor]:
-- 
2.43.0

