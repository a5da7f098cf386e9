NC = "neuralcompression/"
VCT = "projects/torch_vct/"

prop("C01", "Image codec round trip matches the model's own reconstruction at every size",
     "For every image batch, including heights and widths (above half the padding factor) that are not multiples of the downsampling factor, decompressing what the HiFiC autoencoder compressed gives images of exactly the input size with values in [0,1], equal to the cropped and clamped evaluation-mode reconstruction of the padded images. "
     "Compressing is deterministic, the bitstream of an image does not depend on the other images of its batch, and the compressed result can be serialised, copied to another model instance with the same weights, and decoded repeatedly and in any order with the same result.",
     ["inputs", "configurations", "histories"],
     "all image sizes, batch sizes, channel counts, feature widths and all interleavings of compress and decompress calls",
     "Tests round-trip three images with one default model and only compare shapes; no size that needs padding, no value comparison, no batch or history variation.",
     [NC+"models/_hific_autoencoder.py", NC+"models/_hyperprior_autoencoder.py", NC+"models/_hific_encoder_decoder.py", NC+"functional/_pad_image.py", NC+"_outputs/_hyperprior_output.py", NC+"layers/_channel_norm.py"],
     [("pad to factor, encode, hyper-code, conditionally code", NC+"models/_hific_autoencoder.py:compress"), ("sizes derived from padded size, crop and clamp", NC+"models/_hific_autoencoder.py:decompress")],
     "Exhaustive over the stated lattice of sizes x batch x channels x histories on the real model with dyadic weights (float arithmetic exact, so equality is exact); larger sizes and trained weights are outside the bound. Trusts compressai's rANS coder and torch.",
     observe=["compress() output", "decompress() output", "forward() output in eval mode"])

prop("C02", "Freezing, device modes and parameter groups agree under any call order",
     "After every sequence of train, eval, freeze, table-update and device-mode calls on the HiFiC autoencoder, a frozen encoder or bottleneck stays in evaluation mode with no trainable parameter while everything else follows the last train/eval call, and freezing never unfreezes or freezes anything else. "
     "The plain forward pass is refused exactly while the model is in compression mode and unknown device modes are rejected without changing the mode. "
     "The parameters handed to the two optimisers are always disjoint, together cover exactly the trainable parameters, and the second group holds exactly the trainable entropy-model quantiles.",
     ["histories", "configurations"], "all sequences of lifecycle calls and all constructor freeze options",
     "Tests check one freeze followed by one train() and one device mode at a time; combinations and orders are never explored.",
     [NC+"models/_hific_autoencoder.py", NC+"models/_hyperprior_autoencoder.py"],
     [("train() re-applies freezes", NC+"models/_hific_autoencoder.py:train"), ("collect_parameters partition", NC+"models/_hyperprior_autoencoder.py:collect_parameters"), ("device setting gate", NC+"models/_hific_autoencoder.py:update_tensor_devices, forward")],
     "Breadth-first search over every call sequence up to the depth bound with a reference automaton; state space closes (no new states) within the bound. CPU only.")

prop("C03", "Video P-frame decoding reproduces the encoder's own frame estimate at every size",
     "For every pair of frames and every frame size the model accepts, decompressing the compressed P-frame with the same base frame yields a frame of the same size with values in [0,1] that equals the clamped evaluation-mode estimate. "
     "Encoder and decoder that feed back their own decoded frames stay in lockstep over a sequence, and decoding is repeatable and leaves the compressed frame unchanged.",
     ["inputs", "configurations", "histories"], "all frame sizes, batch sizes, channel widths and P-frame sequences",
     "Tests run compress/decompress on a few fixed shapes and compare only shapes.",
     [NC+"models/deep_video_compression.py", NC+"functional/_dense_image_warp.py", NC+"layers/_simplified_gdn.py"],
     [("per-level size bookkeeping", NC+"models/deep_video_compression.py:DVCCompressionEncoder/Decoder.forward"), ("latent size recomputed for entropy decoding", NC+"models/deep_video_compression.py:DVC.decompress")],
     "Exhaustive over a square lattice of frame sizes (every residue of both dimensions) and all P-frame sequences up to the length bound with small channel counts; real modules and real entropy coder.")

prop("C04", "Padding to a factor is minimal, reversible and reports the original size",
     "For every 4-D image and every factor, the padded image has the smallest height and width that are divisible by the factor and not smaller than the input, its top-left part is the input unchanged, and the returned size is the input's size. "
     "The added border follows the requested padding mode, and an image that already fits is returned with equal content.",
     ["inputs", "configurations"], "all image sizes, factors, dtypes and padding modes",
     "Tests use six sizes with two factors and check divisibility only.",
     [NC+"functional/_pad_image.py"], [("modular padding arithmetic", NC+"functional/_pad_image.py:pad_image_to_factor")],
     "Complete enumeration of sizes x factors x modes x dtypes up to the bound against an index-level reference.")

prop("C05", "Splitting latents into patches and reassembling them loses and reorders nothing",
     "For every latent size, batch, channel count and stride, splitting into non-overlapping patches and reassembling with the reported patch counts returns the original tensor exactly. "
     "Overlapping patches contain, in raster order, exactly the reflected-padded window around the matching non-overlapping patch, so both patchings always have the same number of patches; invalid patch sizes are rejected.",
     ["inputs", "configurations"], "all sizes, batches, channels, strides and patch sizes",
     "Two tests with one size each.",
     [VCT+"neural/patcher.py"], [("pad, window partition, inverse permutation", VCT+"neural/patcher.py:Patcher")],
     "Complete enumeration up to the bound with position-encoding tensors, so equality on one tensor decides equality for all tensors of that shape (the code only moves elements).")

prop("C06", "Conditional latent coder is lossless and its tables are valid for all parameters",
     "For every latent value, mean and scale, what the VCT bottleneck decodes from its bitstream equals the quantised value the encoder reported and the value quantised around the rounded mean, including values far outside the modelled range. "
     "The evaluation-mode pass returns the same quantised values, every likelihood lies in (0,1], and the likelihoods over all integers sum to at most one up to the tolerance of the parameter grid.",
     ["inputs", "configurations", "histories"], "all latent values, means, scales, table configurations and update orders",
     "No test exercises the bottleneck at all.",
     [VCT+"neural/bottlenecks.py"], [("index computation shared by encoder and decoder", VCT+"neural/bottlenecks.py:GsnConditionalLocScaleShift"), ("quantised CDF table construction", VCT+"neural/bottlenecks.py:ContinuousIndexedGaussianConditional")],
     "Exhaustive over the product of value, mean and scale lattices (including every table entry's neighbourhood and out-of-table symbols) on the real coder.")

prop("C07", "Transformer entropy model is causal and its encoder and decoder agree",
     "In the VCT entropy model the predicted distribution and features of a token never depend on that token, on later tokens of its patch or (beyond the reflected padding at the border) on any other patch of the current latent. "
     "Compressing a latent gives the same quantised latent whether or not the real decode is run, equal to decoding the strings token by token, with the features of the evaluation-mode pass and a bit count equal to the produced bytes.",
     ["inputs", "configurations"], "all token positions, latent sizes, context lengths and latent values",
     "No test exercises the entropy model as a whole; its own causality helper is switched off.",
     [VCT+"neural/entropy_model.py", VCT+"neural/entropy_model_layers.py", VCT+"neural/layers_utils.py"],
     [("shift by start symbol + causal mask", VCT+"neural/entropy_model_layers.py"), ("token-by-token coding loop", VCT+"neural/entropy_model.py:_encode/_decode")],
     "Every (perturbed position, observed position) pair of small latents and configurations, real transformer; numerical tolerance 1e-5 on float32, exact on decoded latents.")

prop("C08", "Video pipeline codes every frame once, in order, in lockstep with its decoder",
     "For every clip length, frame size and context length, the evaluation-mode VCT pipeline returns one reconstruction per frame at the input size, and each frame's reconstruction depends on exactly that frame and the context-length frames before it. "
     "Encoder and decoder states agree at each step, results are the same with and without a result cache, string coding gives the same reconstructions as the plain evaluation pass, and evaluation and coding calls may follow each other in any order without changing any result.",
     ["inputs", "configurations", "histories"], "all clip lengths, frame sizes, cache settings and coding histories",
     "No test covers the pipeline.",
     [VCT+"model_pipeline.py", VCT+"utils/memoize.py", VCT+"datamodules/video_data_api.py"],
     [("state window and memoised decode", VCT+"model_pipeline.py:decode_Pscene, encode_and_decode_scenes"), ("pad and crop", VCT+"model_pipeline.py:forward")],
     "Exhaustive over clip lengths x sizes x cache on/off with a reduced-width entropy model and real code paths.")

prop("C09", "Memoised functions return what the plain function would return",
     "For every sequence of calls, a memoised function bound to a cache returns the same value as calling the undecorated function on the same arguments, evaluates it only once per distinct argument list, and counts a hit for each repetition. "
     "Caches and functions are independent of each other, and unbound or cache-less calls are never cached.",
     ["histories"], "all call sequences with tensors, nested containers, keyword arguments, garbage-collected arguments and several caches",
     "No test covers memoisation.",
     [VCT+"utils/memoize.py"], [("cache key construction", VCT+"utils/memoize.py:_ensure_hashable, memoize")],
     "Breadth-first search over all call sequences up to the depth bound (argument creation and release included) against a no-cache reference.")

prop("C10", "Vector quantisation picks the nearest codeword and counts usage exactly",
     "For every latent and codebook, each spatial position is replaced by a codeword at minimal Euclidean distance, the reported index names it, and output layout and gradients (straight-through) match the input positions. "
     "The usage counters equal the exact number of times each codeword was chosen since the last reset, derived statistics follow from them, resetting clears them, and the reported coding cost in bytes is positions times bits per index, divided by eight and rounded down.",
     ["inputs", "histories", "configurations"], "all latents on a grid, codebooks, batch shapes and call histories",
     "No test covers the quantisation layers.",
     [NC+"layers/_q_bottleneck.py", NC+"layers/_vq_bottleneck.py", NC+"layers/_project_latent.py", NC+"layers/_normalize_latent.py"],
     [("distance argmin and reshape", NC+"layers/_q_bottleneck.py:quantize_vectors"), ("hit counters", NC+"layers/_vq_bottleneck.py:forward, reset_hits")],
     "Exhaustive over latent grids and all operation histories up to the bound, brute-force nearest neighbour as oracle.")

prop("C11", "VQ-VAE reconstructs at the input size and its label projector never trains",
     "In evaluation mode the VQ-VAE autoencoder returns an image of exactly the input size for every size and its top-left result is that of the padded image; frozen encoder or bottleneck stay frozen in every forward pass, whatever train/eval calls were made. "
     "The projector built from it yields the model's own codeword indices, one per latent position in raster order, stays in evaluation mode and exposes no trainable parameter after any sequence of train and eval calls on it or on a module containing it.",
     ["inputs", "configurations", "histories"], "all image sizes, freeze options and train/eval histories",
     "No test covers these models.",
     [NC+"models/_vqvae_xcit_autoencoder.py", NC+"models/_vqvae_projector.py", NC+"layers/_xca.py"],
     [("pad and crop in eval mode", NC+"models/_vqvae_xcit_autoencoder.py:forward"), ("train() override", NC+"models/_vqvae_projector.py:train")],
     "Exhaustive over sizes x configurations and call histories up to the bound with small channel counts.")

prop("C12", "Streaming metrics do not depend on batching, order or process partition",
     "For every way of splitting the same images into update calls, batches and distributed workers, MS-SSIM, DISTS, FID, KID and SwAV-FID report the same value as a single update with all images, and the value of the per-image definition. "
     "Resetting or cloning returns to a state equivalent to a fresh metric, and real and generated images are never mixed (KID: whenever its subset is the whole sample, since smaller subsets are drawn at random).",
     ["histories", "schedules", "configurations"], "all update/reset/compute histories, partitions into batches and merges across workers",
     "Tests do one update with one batch in one process.",
     [NC+"metrics/_msssim.py", NC+"metrics/_dists.py", NC+"metrics/_fid.py", NC+"metrics/_kid.py", NC+"metrics/_fid_swav.py"],
     [("sum/count and feature-list state", NC+"metrics/*.py:update, compute"), ("distributed reduction", "torchmetrics add_state dist_reduce_fx")],
     "All set partitions/orders of a small image pool over updates and workers; pretrained feature networks replaced by fixed small networks (weights cannot be downloaded).")

prop("C13", "Patch FID feeds every grid patch exactly once, identically to all metrics",
     "For every image size, batch and patch size, the patch-based update passes each full patch of the non-overlapping grid, and of the half-patch-shifted grid when both sides reach one and a half patches, exactly once as 8-bit images to each given metric, ground truth as real and prediction as generated. "
     "The returned count equals the number of patches passed per side, and it refuses to run without any metric.",
     ["inputs", "configurations"], "all image sizes, batch sizes, patch sizes and metric combinations",
     "One test with fixed sizes checks only that it runs.",
     [NC+"metrics/_update_patch_fid.py", NC+"functional/_image_to_255_scale.py"],
     [("unfold grids", NC+"metrics/_update_patch_fid.py")],
     "Complete enumeration of sizes x patch sizes x metric subsets with recording metrics and position-coded images.")

prop("C14", "Quality measures obey their definitions on every input",
     "MS-SSIM is exactly one for identical images, symmetric, independent of the other images in a batch and consistent across reductions; PSNR equals the textbook value for every dtype, is symmetric, decreases as error grows and is infinite for identical images. "
     "The distortion losses are non-negative, zero only for identical inputs where defined and scale with their declared weights.",
     ["inputs", "configurations"], "all small images over a value alphabet, dtypes and reductions",
     "Tests compare a handful of random images with stored values.",
     [NC+"functional/_multiscale_structural_similarity.py", NC+"metrics/_calc_psnr.py", NC+"loss_fn/_mse_loss.py", NC+"loss_fn/_mse_lpips_loss.py", NC+"loss_fn/_normfix_lpips.py", NC+"functional/_lpips.py"],
     [("windowed statistics and reductions", NC+"functional/_multiscale_structural_similarity.py"), ("psnr", NC+"metrics/_calc_psnr.py")],
     "Exhaustive over a finite family of images and parameters; independent reference implementation in float64.")

prop("C15", "Noisy distributions are proper and their likelihoods agree with their CDF",
     "For every base distribution, parameter batch and point, the density of the uniform-noise distribution equals the base probability of the unit interval around the point, the probabilities over any integer-spaced grid sum to one, and log and plain versions agree. "
     "Its cumulative, survival, quantile, moment and tail accessors are those of the base distribution (cumulative and survival complementary and monotone), shapes follow batch and sample shapes, expansion keeps the noise, and every sampled element gets its own noise of at most half a unit.",
     ["inputs", "configurations"], "all base families, parameters, batch shapes and evaluation points on a lattice",
     "Tests check a few hand-picked values for one normal distribution.",
     [NC+"distributions/_uniform_noise.py", NC+"distributions/_noisy_normal.py"],
     [("difference of CDF or survival by side", NC+"distributions/_uniform_noise.py")],
     "Exhaustive over families x parameter lattice x point lattice, float64 oracle by scipy.")

prop("C16", "Tail and log-probability helpers agree with exact values in every regime",
     "The normal CDF, its logarithm, log-survival, survival and log-expm1 helpers agree with high-precision values to floating-point tolerance over the whole representable range, including both far tails and all switch-over points, without overflow, NaN or sign errors. "
     "Estimated tails and quantisation offsets satisfy their defining equations: the mass beyond the lower (upper) tail is the requested one, and the offset lies in [-1/2, 1/2].",
     ["inputs", "configurations"], "all points on an exponent-covering lattice, distributions and tail masses",
     "Tests compare a few points.",
     [NC+"functional/_ndtr.py", NC+"functional/_log_ndtr.py", NC+"functional/_log_cdf.py", NC+"functional/_survival_function.py", NC+"functional/_log_survival_function.py", NC+"functional/_log_expm1.py", NC+"functional/_estimate_tails.py", NC+"functional/_lower_tail.py", NC+"functional/_upper_tail.py", NC+"functional/_quantization_offset.py"],
     [("regime switching", NC+"functional/_log_ndtr.py"), ("tail search", NC+"functional/_estimate_tails.py")],
     "Complete enumeration of a lattice that includes every regime boundary and its floating-point neighbours; oracle in extended precision.")

prop("C17", "Entropy layer configuration and coding tables are coherent for every setting",
     "For every combination of the continuous entropy layer's options, invalid combinations are rejected and valid ones give a layer whose declared properties match the arguments. "
     "When tables are built, each distribution of the prior has its own cumulative table that starts at zero, is strictly increasing, ends at two to the precision, covers the non-negative part of its support up to the tail mass, and matches the distribution's probabilities; quantised values are integers, nearest around the offset and reproduced from their reconstruction.",
     ["configurations", "inputs"], "the full option lattice, priors, shapes, tail masses and precisions",
     "Tests build a few configurations and check attributes.",
     [NC+"layers/_continuous_entropy.py"], [("option validation and table construction", NC+"layers/_continuous_entropy.py:_ContinuousEntropy/ContinuousEntropy")],
     "Exhaustive over the option lattice and small priors.")

prop("C18", "Bounds and divisive normalisation keep parameters legal, gradients as declared",
     "Lower-bounding never returns a value below the bound and leaves larger values unchanged, with exactly the documented gradient for each gradient mode. "
     "Divisive normalisation (and its inverse) divides (multiplies) each value by its channel's bias plus the weighted magnitudes of all channels at the same position, keeps every parameter within its legal range whatever the optimiser wrote while leaving legal values and the parameter objects alone, and preserves shape, with finite gradients everywhere.",
     ["inputs", "histories", "configurations"], "all values on a lattice around the bound, gradient modes, parameter updates and shapes",
     "Tests compare one cached example and one bound.",
     [NC+"functional/_lower_bound.py", NC+"layers/_simplified_gdn.py"], [("custom backward rules", NC+"functional/_lower_bound.py"), ("parameter clamping", NC+"layers/_simplified_gdn.py")],
     "Exhaustive over value x incoming-gradient x mode lattice and over parameter-update histories.")

prop("C19", "Soft rounding interpolates monotonically between identity and rounding",
     "For every value and sharpness, soft rounding is non-decreasing, fixes integers and half-integers, stays within its unit cell, commutes with integer shifts, tends to the identity for small sharpness and to hard rounding for large sharpness. "
     "Its inverse undoes it on the whole line, and the conditional mean stays within half a unit of the observed value.",
     ["inputs", "configurations"], "all lattice values and sharpness settings including the limits",
     "Tests check a few points for two sharpness values.",
     [NC+"functional/_soft_round.py", NC+"functional/_soft_round_inverse.py", NC+"functional/_soft_round_conditional_mean.py"],
     [("tanh/atanh re-scaling per unit cell", NC+"functional/_soft_round*.py")],
     "Complete enumeration of a value lattice with floating-point neighbours of every breakpoint x sharpness.")

prop("C20", "Learning-rate schedules follow their definition and survive checkpointing",
     "For every configuration and every step, the ramp, cosine and constant schedules return the defined learning-rate factor: non-negative, rising to one during the ramp, non-increasing afterwards up to the last step, independent per parameter group. "
     "Saving and restoring optimiser and schedule at any step continues exactly as without interruption.",
     ["configurations", "crash_points", "histories"], "all small schedule configurations, all steps and all checkpoint points",
     "No test covers the schedules.",
     [NC+"optim/_ramp_cosine.py", NC+"optim/_ramp_const_cosine.py", NC+"optim/_identity.py", VCT+"utils/schedulers.py"],
     [("lambda schedules", NC+"optim/*.py")],
     "Every configuration in a lattice, stepped past its end, with a save/restore at every step.")

prop("C21", "Datasets return every sample exactly once, in a stable order",
     "For every directory tree that follows a supported layout, each image or video dataset has as many items as the split contains, every index returns a different sample with the right frames in the right order, and repeated construction or file-system listing order does not change the mapping. "
     "Files of other splits never leak in and transforms are applied to exactly the returned item.",
     ["configurations", "inputs", "schedules"], "all small directory trees, splits, option combinations and directory listing orders",
     "Tests use one tree in one listing order.",
     [NC+"data/_vimeo_90k_septuplet.py", NC+"data/_openimages_v6.py", NC+"data/_div2k_dataset.py", NC+"data/_kodak.py", NC+"data/_clic_2020_image.py"],
     [("file list construction and indexing", NC+"data/*.py")],
     "All trees up to a size bound x all permutations of directory listings (injected), real datasets on scratch directories.")

prop("C22", "Kodak download yields verified files or an error at every fault point",
     "Whatever fails while the Kodak images are fetched (an error, a truncated or corrupted body, a crash between any two steps), the dataset never hands out a file whose content was not verified, and a later attempt succeeds once the source works. "
     "A directory that already exists is not touched unless the download is forced, and forcing fetches every file again.",
     ["fault_sequences", "crash_points", "histories"], "all fault sequences up to a bound, all crash points and all retry histories",
     "The test mocks a complete directory; no fault is ever injected.",
     [NC+"data/_kodak.py"], [("hash check after download", NC+"data/_kodak.py:_download")],
     "Every fault/crash sequence up to the bound with a scripted in-memory server in a scratch directory.")

prop("C23", "CLIC image download is idempotent and retryable after any interruption",
     "Downloading any CLIC2020 split any number of times, in any order and with an interruption at any step, ends with each requested split complete and not mixed with others once an attempt for it succeeds; other splits are never touched, and an archive already downloaded and intact is not fetched again. "
     "Opening the dataset without downloading sees exactly the images of the requested split.",
     ["crash_points", "histories", "fault_sequences"], "all sequences of split downloads and all interruption points",
     "The test mocks a finished download.",
     [NC+"data/_clic_2020_image.py"], [("archive extraction and renames", NC+"data/_clic_2020_image.py:download")],
     "Every download sequence up to the bound and every crash point between file-system operations, scripted archives in scratch directories.")

prop("C24", "CLIC video iteration yields every clip of every video in frame order",
     "For every set of videos, clip length and step, iterating the dataset yields exactly the clips the clip sampler defines for every video, frames in temporal order and matching the file names, each video exactly once per pass, and a new pass starts over. "
     "Directory listing order does not matter.",
     ["configurations", "histories", "schedules"], "all small video sets, clip lengths, listing orders and iteration histories",
     "Tests iterate one mocked video.",
     [NC+"data/_clic_2020_video.py"], [("iterator state machine", NC+"data/_clic_2020_video.py:__next__")],
     "Exhaustive over small video sets x clip settings x listing orders.")

prop("C25", "Flop counts are exact, additive and have no side effects",
     "For every supported layer configuration and input shape, the counted operations equal the closed-form count, counting a composition gives the sum of its parts, and unsupported operations are reported. "
     "Counting has no effect on the module beyond that of one forward pass (mode, parameters, hooks and outputs stay as they were), and repeated or interleaved counts with different options do not influence each other.",
     ["configurations", "histories"], "all small layer configurations, compositions and call histories",
     "Tests compare a few layers with constants.",
     [NC+"functional/_count_flops.py"], [("operator handles", NC+"functional/_count_flops.py")],
     "Exhaustive over layer/shape lattice and over histories of count calls.")

prop("C26", "Arithmetic coder decodes every message it encodes",
     "For every symbol sequence and every table of frequencies the vectorised arithmetic coder accepts, decoding the encoded bits returns the sequence exactly, for all message lengths including those whose bits are shorter than the coder's register. "
     "The code length stays within the coder's documented overhead of the information content.",
     ["inputs", "configurations"], "all messages up to a length over all small frequency tables",
     "Its test needs a library that is not installed and samples random messages.",
     ["projects/jax_entropy_coders/jax_arithmetic_coder.py"], [("interval update and carry/pending-bit handling", "projects/jax_entropy_coders/jax_arithmetic_coder.py")],
     "Complete enumeration of messages x tables up to the bound; the module runs on a numpy stand-in for jax (not installed), so XLA-specific behaviour is out of scope.")

prop("C27", "Stack-based ANS coders are exact inverses in every push/pop history",
     "For every initial state, codec and history, popping what was pushed returns the pushed symbols and restores the coder's state exactly, and popping then pushing back restores the state as well. "
     "Flattening and unflattening preserves the state, and composed codecs (sequence, bits-back) keep these guarantees.",
     ["histories", "inputs", "configurations"], "all push/pop histories, symbols, precisions and initial states",
     "Its tests need a library that is not installed and sample random data.",
     ["projects/jax_entropy_coders/craystack/coder.py", "projects/jax_entropy_coders/craystack/codecs.py", "projects/jax_entropy_coders/craystack/_backend.py"], [("head/tail renormalisation", "projects/jax_entropy_coders/craystack")],
     "Breadth-first search over all push/pop histories up to the depth; numpy stand-in for jax.")

prop("C28", "Bits-back diffusion codec is lossless over histories and restarts",
     "For every image, history of encode, decode, save and load calls and number of diffusion steps, decoding returns the images in reverse order exactly as encoded and gives the message back bit for bit; statistics agree with the message and survive saving and loading. "
     "The encoding script, killed after any checkpoint and restarted, decodes exactly the batches it was given. Bins are centred on the data levels for every data range.",
     ["inputs", "histories", "crashes", "configurations"], "all images, precisions, call histories and kill points of the script",
     "Its one test encodes a single random batch with a model that knows the answer and needs libraries that are not installed.",
     ["projects/bits_back_diffusion/bits_back_diffusion/codec.py", "projects/bits_back_diffusion/encode.py"],
     [("state_dict/load_state_dict", "projects/bits_back_diffusion/bits_back_diffusion/codec.py"), ("update_checkpoint, space_timesteps", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py")],
     "Exhaustive images and explicit-state call histories on the real codec; every kill point of the script; stand-ins for craystack and improved_diffusion.")

prop("C29", "Adversarial losses and discriminators follow their definition on all inputs",
     "For every logit and label map the discriminator and generator losses equal their cross-entropy definition, are non-negative, decrease when a logit moves toward its target, and reject mismatched shapes, ranks or label types. "
     "Discriminators return one logit map per image at the input resolution expected by the losses, for every accepted size and batch, independent of the other images in evaluation mode.",
     ["inputs", "configurations"], "all logit/label lattices, shapes and discriminator configurations",
     "Tests compare a few random tensors.",
     [NC+"loss_fn/_binary_crossentropy_loss.py", NC+"loss_fn/_oasis_loss.py", NC+"models/_unet_discriminator.py"],
     [("target construction and shape checks", NC+"loss_fn/_oasis_loss.py"), ("shape bookkeeping", NC+"models/_unet_discriminator.py")],
     "Exhaustive over logit lattices/label maps and shape lattices.")

prop("C30", "Colour, scale and warp conversions are exact and stay in range",
     "For every colour, hue-saturation-value conversion matches the standard definition, stays in [0,1] and treats hue 0 and 360 alike; flow colouring shows direction as hue and the magnitude, normalised over the tensor, as value, so no motion is black. "
     "Conversion to the 0-255 scale rounds every value in [0,1] to its level for each output type and rejects values outside, and warping samples the image at exactly the normalised grid position plus flow for every mode, padding and size.",
     ["inputs", "configurations"], "all colours and flows on a lattice including the wrap-around, all 8-bit values and neighbouring floats, all small images and flows",
     "Tests compare a few random tensors.",
     [NC+"functional/_hsv_to_rgb.py", NC+"functional/_optical_flow_to_color.py", NC+"functional/_image_to_255_scale.py", NC+"functional/_dense_image_warp.py"],
     [("piecewise conversion", NC+"functional/_hsv_to_rgb.py")],
     "Complete enumeration of colour/flow/value lattices against independent references.")

prop("C31", "Rate targeting switches exactly at the target and at the scheduled steps",
     "For every training step, schedule and measured rate, the rate loss uses the factor scheduled for that step and the larger weight exactly for those images whose quantised rate exceeds the current target. "
     "The rates are bits per pixel from the likelihoods, summed over latents and hyper-latents per image, and inconsistent schedules are rejected.",
     ["inputs", "configurations", "histories"], "all small schedules, steps around every boundary, and rates around the target",
     "No test covers rate targeting.",
     ["projects/illm/target_compression_module.py", NC+"loss_fn/_target_rate_config.py"],
     [("scheduled parameter lookup", "projects/illm/target_compression_module.py:_get_scheduled_rate_param"), ("per-image weight selection", "projects/illm/target_compression_module.py:rate_loss")],
     "Every schedule/step/rate combination in a lattice; the training framework (not installed) is replaced by a minimal stand-in.")

prop("C32", "Reported sizes and information content equal the actual amount of data",
     "The reported size of a compressed object is the exact number of bytes of its pickled form for every object, and information content is the negative base-corrected log-likelihood summed over the requested axes for every shape and memory layout. "
     "Each reduction option is consistent with the unreduced result.",
     ["inputs", "configurations"], "all small objects, shapes, layouts, bases and reductions",
     "Tests compare a few shapes.",
     [NC+"metrics/_pickle_size.py", NC+"functional/_information_content.py"],
     [("reductions", NC+"functional/_information_content.py")],
     "Complete enumeration of shapes x layouts x reductions x bases.")


prop("C33", "Training steps update each parameter group from its own loss only",
     "In every sequence of training and validation steps of the image-compression project, each optimiser steps once per training step and applies exactly the gradient of its own loss (rate-distortion plus adversarial term for the model, adversarial loss for the discriminator, quantile loss for the quantiles), frozen parts never move and validation changes nothing. "
     "It holds for conditional and unconditional discriminators, split or shared batches, label maps and clipping, and the logged losses and metrics are those of the images actually used.",
     ["histories", "configurations"], "all short histories of training and validation steps over all module configurations",
     "No test covers the training modules.",
     ["projects/illm/gan_compression_module.py", "projects/illm/target_compression_module.py", "projects/illm/image_module.py"],
     [("generator and discriminator alternation", "projects/illm/gan_compression_module.py:training_step"), ("batch split", "projects/illm/gan_compression_module.py:_resample_batch"), ("metric feeding", "projects/illm/image_module.py:log_quality_metrics")],
     "All step histories up to a depth are executed on the real modules (framework replaced by a stand-in) and compared, update by update, with an independent reference.")


prop("C34", "Staged video training trains only its own parts and reports true rates",
     "In every history of training, validation, image-logging and table-update calls of the deep video compression project, each stage moves exactly its own parts by the clipped gradient of each P-frame's loss (quantiles by the quantile loss), predicts each P-frame from the previous reconstruction, and never moves the I-frame codec or later parts; validation and logging change nothing, including the caller's frames. "
     "Logged rates, losses and distortion are those of the clip, I-frame included, and recomposing returns the full model with the trained parts.",
     ["histories", "configurations"], "all short call histories x stages x number of P-frames x clipping and schedules, and all stage sequences",
     "No test covers the training stages.",
     ["projects/deep_video_compression/_utils.py", "projects/deep_video_compression/dvc_module.py", "projects/deep_video_compression/train.py"],
     [("P-frame loop", "projects/deep_video_compression/dvc_module.py:training_step"), ("parameter grouping and recomposition", "projects/deep_video_compression/_utils.py"), ("image logging", "projects/deep_video_compression/train.py:WandbImageCallback")],
     "Explicit-state search over all call histories on the real stage classes (framework and I-frame codec replaced by stand-ins), each update and log compared with an independent reference trainer.")


prop("C35", "Video transformer training and evaluation steps follow their definitions",
     "For every clip, the VCT training loss is the mean over frames of bits per pixel plus the scaled mean squared error, frames after the first counting ten times, and the logged training and validation losses, rates and PSNRs (float and 8-bit, per frame and clip averaged, out-of-range values clamped for 8-bit) are those of the clip. "
     "A test step reports the PSNR and bits per pixel, with and without the first frame, of the actually decoded strings and of the likelihood pass. "
     "In every history of training, validation and test steps the evaluation steps change nothing and report what they would report alone; the optimiser gets exactly the trainable non-quantile parameters.",
     ["histories", "inputs", "configurations"], "all level pairs, clip lengths, batch sizes, frame sizes and short step histories",
     "No test covers the training module.",
     [VCT+"model_lightning.py", VCT+"model_train.py"],
     [("step definitions", VCT+"model_lightning.py:training_step, validation_step, test_step"), ("8-bit PSNR", VCT+"model_lightning.py:psnr"), ("image logging", VCT+"model_train.py:WandbImageCallback")],
     "Exhaustive over level pairs, clip shapes and likelihood patterns with a stand-in pipeline, and over all step histories up to the depth with the real pipeline at reduced width; framework replaced by a stand-in.")

prop("C36", "Project data modules deliver every sample once with the declared transform",
     "For every data set size, batch size, crop size and frame count, the project data modules (UVG, both Vimeo modules, OpenImages, Kinetics) split the data as declared, deliver in evaluation order every sample once with frames in temporal order, the last partial batch included, and in training every sample of the training split once per epoch, in an order drawn anew from the random seed. "
     "Values, shapes and normalisation are those of the declared transform, every frame of a clip gets the same crop and flip, and collating keeps clips, order and frame sizes apart.",
     ["inputs", "configurations"], "all small data sets x batch, crop, frame-count and normalisation settings, every crop offset and flip",
     "No test covers the project data modules.",
     ["projects/torch_vct/datamodules/uvg.py", "projects/torch_vct/datamodules/vimeo.py", "projects/torch_vct/datamodules/kinetics.py", "projects/torch_vct/datamodules/video_data_api.py", "projects/illm/open_images_datamodule.py", "projects/illm/default_transforms.py", "projects/deep_video_compression/data_module.py"],
     [("frame grouping and transforms", "projects/torch_vct/datamodules/uvg.py, vimeo.py, kinetics.py"), ("collation", "projects/torch_vct/datamodules/video_data_api.py"), ("OpenImages loaders", "projects/illm/open_images_datamodule.py")],
     "Complete enumeration of small data sets and settings, written to scratch folders and read through the real data modules; random sources are enumerated. Framework replaced by a stand-in; video decoding is not exercised.")

prop("C37", "Restarted runs trust only what a finished run left behind",
     "In the training scripts of the three projects, leftover checkpoints with neither overwrite nor resume are refused with the directory untouched, overwrite starts afresh, and resume continues from exactly that run's (or stage's) last.ckpt; evaluation loads exactly that checkpoint and tests every data set once, in order, under its own name; the step budget is scaled by the number of optimisers. "
     "A crash, torn or failing write or a concurrent second process at any point of the image-log cache or the CIFAR-10 preparation never makes a later run fail, take a partial result for complete, or get another configuration's images.",
     ["crash points", "schedules", "histories", "configurations"], "all leftovers x options, all crash points and torn writes of one or two runs, all preemptions of one run by another",
     "No test starts a training or preparation script.",
     ["projects/illm/train.py", "projects/deep_video_compression/train.py", VCT+"model_train.py", "projects/bits_back_diffusion/datasets/cifar10.py"],
     [("checkpoint lookup", "projects/illm/train.py:fetch_checkpoint; projects/deep_video_compression/train.py:run_training_stage; projects/torch_vct/model_train.py:main"), ("cache", "projects/illm/train.py:build_wandb_image_logger"), ("dump", "projects/bits_back_diffusion/datasets/cifar10.py:main")],
     "Every run is executed in forked processes that are killed before each file-system operation or at a write size, or preempted by a second process; every reachable disk state is continued with every further run. Framework replaced by a stand-in.")

prop("C38", "Pretrained models carry exactly the published weights or fail loudly",
     "Every library and hub entry point builds its documented architecture, fetches nothing without weights, and otherwise loads exactly the file published under its name, whatever was loaded before. "
     "A checkpoint with a missing, renamed or misshapen entry is refused rather than partly loaded. "
     "The project loaders take from a training checkpoint exactly the entries of the requested part, under their own names, freeze what must stay fixed, and hand back a model that codes like the one saved.",
     ["inputs", "histories", "configurations"], "all entry points x options x call pairs, every single damaged entry of both checkpoints, all key sets x prefixes",
     "Tests never download weights.",
     ["hubconf.py", NC+"zoo/_msillm.py", NC+"zoo/_noganms.py", NC+"zoo/_msillm_vqvae.py", "projects/illm/train.py", VCT+"utils/checkpoint_loaders.py"],
     [("entry points", "hubconf.py; neuralcompression/zoo"), ("prefix selection", "projects/illm/train.py:pretrained_state_dict"), ("VCT loading", VCT+"utils/checkpoint_loaders.py:load_model_checkpoint_from_config")],
     "Complete enumeration with a recording stand-in server; every single-entry damage of the full-size checkpoints is tried on the real loaders.")

prop("C39", "Diffusion scripts finish with the right result after any interruption",
     "The encoding script of the diffusion project, killed at any point (a checkpoint half written included) and started again, also for more samples, ends with exactly the batches it was given decoded, each process in its own directory. "
     "The bound script reports the mean over all samples of all processes and its per-step terms in step order. "
     "A resumed training run starts in every process from the newest checkpoint's parameters, averages and step.",
     ["crash points", "histories", "configurations"], "all crash points and torn writes of one or two runs x batch counts x checkpoint intervals, all pairs of sample counts, 1-3 processes",
     "The scripts have no tests.",
     ["projects/bits_back_diffusion/encode.py", "projects/bits_back_diffusion/compute_vlb.py", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py"],
     [("checkpoints", "projects/bits_back_diffusion/encode.py:main, encode, decode"), ("aggregation", "projects/bits_back_diffusion/compute_vlb.py:main"), ("restart", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py:update_checkpoint, TrainLoop")],
     "Every run is executed in a forked process killed before each file-system operation, after each file creation or at a write size; every reachable disk state is restarted. Distributed runs are threads meeting at each collective operation. Framework replaced by stand-ins.")

prop("C40", "Video transforms treat every frame on its own, whatever the clip and chunking",
     "For every clip, the analysis and synthesis transforms of the video transformer give each frame what they give it alone, whatever the other frames, the number of clips and the chunk size, with the same gradients; the input is not modified. "
     "Analysis of an HxW frame gives ceil(H/16) x ceil(W/16) latents, synthesis the upper left part of its full output at exactly the requested frame size. "
     "Values follow the published layer sequence, and inconsistent channel settings are refused.",
     ["inputs", "configurations"], "all small frame sizes, clip counts and lengths, chunk sizes, crop sizes and channel settings",
     "Tests sample a few shapes and never compare values.",
     [VCT+"neural/transforms.py", VCT+"neural/layers_utils.py"],
     [("reshape and chunking", VCT+"neural/transforms.py:forward"), ("strided layers", VCT+"neural/layers_utils.py:make_conv, make_deconv")],
     "Complete enumeration of clip shapes, chunk sizes and crops on the real classes at reduced width, against each frame transformed alone and a reference built from the layer definitions.")

prop("C41", "Every combination of the shipped project configurations builds and trains",
     "Every choice of options in the configuration files of the projects (video transformer, MS-ILLM with and without GAN, DVC stages, bits-back diffusion) composes and resolves, every class or function it names exists and accepts the values given to it, and the scripts run with it: the networks fit together (labels, classes and output grids of the GAN; pretrained and configured architectures), pretrained weights are loaded into the configured network, what the configuration freezes is not trained, one training and validation step is finite, and the quantity checkpoints are chosen by is logged. "
     "The trainer runs the configured number of steps of each optimiser, the learning rate starts from the configured value and stays between zero and its maximum over the whole of training, a rate target is the one its option is named for, DVC stages run once each in order, and the test loaders of an evaluation give every image of the named data sets.",
     ["configurations"], "all combinations of the groups of the shipped configuration files",
     "No test loads a configuration file: a renamed class, argument or option only shows on a training machine.",
     ["projects/torch_vct/model_train.py", "projects/torch_vct/utils/schedulers.py", "projects/illm/train.py", "projects/illm/target_compression_module.py", "projects/illm/gan_compression_module.py", "projects/deep_video_compression/train.py", "projects/deep_video_compression/dvc_module.py", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py", "projects/bits_back_diffusion/train.py", "projects/torch_vct/utils/hydra_tools.py"],
     [("configurations", "projects/torch_vct/config"), ("configurations", "projects/illm/conf"), ("configurations", "projects/deep_video_compression/config"), ("configurations", "projects/bits_back_diffusion/config"), ("construction", "projects/illm/train.py:build_module, build_trainer, build_test_dataloaders")],
     "Complete enumeration of the option combinations; each is composed with the documented rules and handed to the real scripts, whose trainers and loaders are then examined.")

prop("C42", "Folder evaluation reports the averages over exactly the images of the folder",
     "For every folder, the MS-ILLM folder evaluation codes each PNG image of the folder exactly once, with the documented model prepared for coding (evaluation mode, tables built, devices set, no gradients) and in RGB as stored, whatever its colour mode, its size and the other files present. "
     "The reported rate is the mean over images of the bits of the serialised code per pixel of that image; PSNR and MS-SSIM are the means over images of their definitions on the 8-bit original and the clamped reconstruction; LPIPS compares each clamped reconstruction with its original in [0,1]; FID gets the 8-bit 256-pixel patches of both grids, real and reconstructed alike.",
     ["inputs"], "all folders of a few images over sizes, colour modes, kinds of other files, and coders that darken, brighten or overshoot",
     "No test runs the script.",
     ["projects/illm/eval_folder_example.py"],
     [("evaluation loop", "projects/illm/eval_folder_example.py:main"), ("rounding", "projects/illm/eval_folder_example.py:rescale_image")],
     "Complete enumeration of small folders through the real script with a stand-in coder that records; every printed figure against its definition.")

prop("C43", "Stored, restored or copied models behave like the original, whatever its history",
     "After every history of training steps, evaluation passes, table updates, coding, freezing and mode changes, loading the stored state of a library model or layer into a model of the same configuration (new, or used before but without coding tables), copying it, or storing the whole object where torch can, gives a model with the same state: evaluation results, coded strings, and the effect of every following operation are those of the original. "
     "Original and copy share nothing: using or training one never changes the other. States with a missing, additional or misshapen entry are refused.",
     ["histories", "crash_points", "configurations"], "all histories up to a length, all ways to store and restore at their end, and the operations that follow",
     "Tests never store, restore or copy a model.",
     [NC+"models/_hific_autoencoder.py", NC+"models/_hyperprior_autoencoder.py", NC+"models/deep_video_compression.py", NC+"models/_vqvae_xcit_autoencoder.py", NC+"models/_vqvae_projector.py", NC+"models/_unet_discriminator.py", NC+"models/_discriminator.py",
      NC+"layers/_q_bottleneck.py", NC+"layers/_vq_bottleneck.py", NC+"layers/_project_latent.py", NC+"layers/_normalize_latent.py", NC+"layers/_simplified_gdn.py", NC+"layers/_channel_norm.py", NC+"layers/_xca.py", VCT+"model_pipeline.py", VCT+"neural/bottlenecks.py", VCT+"neural/entropy_model.py", VCT+"neural/transforms.py"],
     [("registered state", NC+"layers/_q_bottleneck.py:QBottleneck.__init__"), ("tables of changing size", VCT+"neural/bottlenecks.py:_load_from_state_dict"), ("tables of changing size", NC+"models/deep_video_compression.py:DVC")],
     "Every history is replayed on the real class; at its end the model is stored, restored or copied in each way and both are then driven in lockstep.")
