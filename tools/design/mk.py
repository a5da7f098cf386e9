import importlib, sys, json
import os, glob
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, ROOT)
O = {
"C01": ("input image and byte strings: encode-decode equality, size restoration, independence of batch mates, and history independence", "a second, independent walk through the published codec equations (pad, analysis, hyper analysis, medians, table lookup, rANS) in the harness; on the exact networks all numbers are dyadic so that equality is exact", "tests use two sizes; failures live in size residues, ties and batch composition"),
"C02": ("which parts train, which are frozen and which tables are valid after any order of mode calls, updates and checkpoint loads", "a reference automaton of mode flags; tables compared with freshly built ones", "tests call each method once; errors need orders of calls"),
"C03": ("P-frame decode equals the encoder's own reconstruction for whole sequences (no drift), at every frame size", "decoder state replayed from strings only; encoder reconstruction", "one test size, one frame"),
"C04": ("padding to a multiple and which source pixel every output pixel shows", "index arithmetic written independently (reflect/replicate/circular/constant)", "tests compare shapes at a few sizes"),
"C05": ("patching followed by unpatching is the identity, windows show exactly the documented pixels", "index reference on tensors with distinct elements", "shape residues"),
"C06": ("conditional coder: decoded value is round(x - mean) + mean with the nearest table, for all values, means and scales", "float64 reference tables and rounding; explicit-state search over compress/decompress/update histories", "ties, table edges and escape values are measure-zero for sampled inputs"),
"C07": ("no symbol is coded with information the decoder does not have; strings decode to the encoder's latents", "all (perturbed, observed) position pairs; an independent token-by-token decoder", "tests check shapes of masks only"),
"C08": ("frame order, causality window, cache transparency and bit-exact decoding of every clip prefix", "a cache-free frame-by-frame replay", "needs sequences of frames and calls"),
"C09": ("a memoised function is indistinguishable from the plain one", "the undecorated function; breadth-first search over call histories including object death and address reuse", "aliasing needs a history"),
"C10": ("nearest codeword, indices, counters and derived statistics", "float64 brute-force distances; multiset counters replayed by the model", "needs duplicates, ties, un-normalised codebooks, resets"),
"C11": ("size restoration and freezing/evaluation automata", "padded run of the same network; reference automaton over train/eval/forward histories", "orders of mode calls, odd sizes"),
"C12": ("metric values are functions of the multiset of images only", "per-image definition in float64; simulated all-gather for workers", "all batchings, orders and partitions"),
"C13": ("exact multiset of patches handed to each metric", "position-coded images and an index reference", "boundary sizes"),
"C14": ("MS-SSIM, PSNR and losses", "float64 scalar references", "all small images, dtypes and sizes"),
"C15": ("noisy distributions", "float64/mpmath CDF differences", "tails, batch shapes"),
"C16": ("tail helpers", "mpmath at 50 digits", "every exponent and both neighbours of each switch-over"),
"C17": ("entropy layer", "option truth table written from the documentation; float64 probabilities", "2^9 option combinations, heterogeneous priors"),
"C18": ("lower bound and GDN", "scalar definition and reference state for parameter histories", "exact ties, illegal optimiser writes"),
"C19": ("soft rounding", "mpmath definition plus order/shift/inverse laws", "breakpoints and their floating-point neighbours"),
"C20": ("schedules", "closed form; uninterrupted run as reference for resumed ones", "every step and every checkpoint position"),
"C21": ("datasets", "the directory tree that was generated", "listing orders and decoys"),
"C22": ("Kodak download", "set of verified contents; fault injector wrapping network and file-system calls", "crash and fault points"),
"C23": ("CLIC download", "reference content of each split; fault injector", "crash and fault points, sequences of splits"),
"C24": ("CLIC video iteration", "fresh clip sampler and file names", "iteration histories, workers"),
"C25": ("flop counting", "closed forms; state snapshots before and after", "histories of counts, layer lattice"),
"C26": ("arithmetic coder", "message itself; -log2 p plus documented overhead", "carry/straddle runs, exact buffer sizes"),
"C27": ("rANS stack", "exact integer state equality", "renormalisation boundaries, empty stack"),
"C28": ("bits-back codec and its script", "message bytes, image stack, level-centred Gaussian mass", "call histories, kill points"),
"C29": ("GAN losses and discriminators", "scalar cross entropy in float64; per-image runs", "label lattices, all output factors"),
"C30": ("conversions", "colorsys, scalar warping", "sextant and half-level neighbours"),
"C31": ("rate targeting", "scalar reference for schedule and weights", "equality with the target, step order"),
"C32": ("sizes and information", "real pickle files; float64 logs", "layouts, nestings"),
"C33": ("training steps", "independent computation of all three gradients and updates", "histories and option lattice"),
"C34": ("staged DVC training: what moves, what is logged, what stays untouched", "an independent reference trainer stepped alongside", "call histories, stage sequences"),
"C35": ("VCT training, validation and test numbers", "the definitions in float64; single-step runs as reference for histories", "all 8-bit level differences, clip lengths, step histories"),
"C36": ("project data modules", "the generated files, position-coded pixels", "data set sizes, partial batches, every crop offset"),
"C37": ("what a restarted run does with what an earlier, possibly killed, run left behind", "decision table written from the documented messages; uninterrupted run", "crash points, combinations of leftovers and options"),
"C38": ("pretrained entry points and checkpoint loading", "published table of names and files; the stored tensors", "all names, options and damaged checkpoints"),
"C39": ("the diffusion coder's scripts when killed at any point, restarted, grown and run on several ranks; training loop checkpoints", "uninterrupted run; closed-form variational bound", "crash points, torn writes, restarts and rank counts"),
"C40": ("VCT analysis and synthesis transforms frame by frame", "the same network applied to one frame at a time; float64 reference convolutions", "all small clip shapes, chunk sizes and crops"),
"C41": ("the projects' training and coding scripts on every combination of the shipped configuration groups", "the composed values themselves (steps, learning rates, targets, class counts), architecture equality, all images of a generated data set", "a configuration naming a class that does not exist is only met on a training machine; two such were found"),
"C42": ("projects/illm/eval_folder_example.py as a program", "definitions of rate, PSNR, MS-SSIM and the FID/256 protocol in float64 over the recorded codes", "folders mixing sizes, modes and other files; overshooting coders"),
"C43": ("25 model and layer configurations of the library and the video transformer at reduced width", "the original, driven in lockstep with the copy", "tables whose size is only known after training, counters, caches and closures that copies may share, operations after the restore"),
}
COST=json.load(open(HERE + '/cost.json'))
out=[open(HERE + '/head.md').read()]
out.append("## Properties\n\nEvery check below runs the real code of /repo's working tree. *Reference* is what each execution is compared with; *explored* are the quick bounds (thorough uses larger ones, printed in the evidence file); cost is quick wall time on this machine, idle.\n")
for l in open(ROOT + '/properties.jsonl'):
    p=json.loads(l); i=p['id']
    if i not in O: continue
    m=importlib.import_module('mc.'+i.lower())
    a,b,c=O[i]
    out.append(f"### {i} {p['title']}\n\n- **Decided:** {a}.\n- **Explored:** {m.bounds('quick')}.\n- **Reference:** {b}.\n- **Beyond the tests:** {c}.\n- **Assumptions:** {'; '.join(getattr(m,'ASSUMPTIONS',[])) or 'none'}.\n- **Cost:** about {COST.get(i,'?')} s.\n")
tail = open(HERE + '/tail.md').read()
caught = json.load(open(HERE + '/caught.json'))
rows = ["## Planted bugs", "", "Each was built and validated by `tools/mkseed.py` in a scratch clone (builds, stable tests pass, demo fails only with the patch). *Caught* is the verdict of the property's quick check.", "", "| bug | property | needs | caught |", "|---|---|---|---|"]
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), caught.get(n, "?")))
out.append(tail.replace("@@SEEDS@@", "\n".join(rows)))
open(ROOT + '/DESIGN.md','w').write('\n'.join(out))
