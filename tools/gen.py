#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

R = "lib/sia/rust/"
WM = [R + "watermarking/src/lib.rs", R + "watermarking/src/process.rs", R + "watermarking/src/watermark.rs"]
EMB = [R + "embedding/src/lib.rs", R + "embedding/src/haar/mod.rs", R + "embedding/src/io/mod.rs", R + "embedding/src/io/steganography.rs", R + "embedding/src/io/data.rs"]
ENC = [R + "encoding/src/lib.rs"]
SIG = [R + "signature/src/lib.rs"]
QUA = [R + "three-bit-quantization/src/lib.rs"]
ZER = [R + "zernike/src/calc.rs", R + "zernike/src/lib.rs"]
FEA = [R + "image-features/src/lib.rs"]
UTI = [R + "utils/src/"]
CLI = [R + "cli/src/main.rs"]
WEB = [R + "web/src/lib.rs", R + "web/src/image_model.rs", R + "web/src/watermarking_process.rs"]
TS = ["src/Content/utils.ts"]
PAGE = ["src/Content/Content.tsx", "src/Canvas/Canvas.tsx", "src/WatermarkingPreview/WatermarkingPreview.tsx", "src/Content/utils.ts"]

P = []
def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, hook=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors), technique, note))

HW = "marking and reading one grey channel with a chosen number of levels (cfg sia_verif_hooks)"

prop("C01", "A freshly marked picture is authentic",
 "A picture of any shape which has room for the mark, marked with any admissible depth, step and number of features, is found authentic by the reader with the same parameters. This holds whenever the pixels cannot saturate, the depth outweighs rounding to whole grey levels, and marking moves no feature of the picture by a step.",
 ["inputs", "configurations"], "all pictures with room for the record, all depths, steps, numbers of features and levels within the preconditions",
 "The tests mark one or two fixed pictures with one set of parameters and compare with stored numbers; no test reads a mark back at all.",
 WM + EMB + ENC + QUA, [("watermark_channel embeds what authenticate_channel extracts", R + "watermarking/src/process.rs"), ("perturbation bits absorb the change marking makes to the features", R + "three-bit-quantization/src/lib.rs")],
 "property-based testing: generated pictures, round trip through marking and reading, cross-checked with a reference reader",
 "Thousands of generated pictures over all codes, shapes and levels; the preconditions are measured by an independent model.", ["verdict of the reader"], HW)

prop("C02", "What was not marked, was altered or forged is not authentic",
 "The reader accepts a picture only if it carries a record whose signature by the owner of the key covers the cells restored from the picture's own features. Unmarked pictures, pictures altered beyond the tolerance, the mark of another picture, and altered or forged records are all not accepted, nor are genuine ones by readers with other parameters, unless their cells happen to be the same.",
 ["inputs", "configurations"], "all pictures, all alterations and forgeries of a marked picture, all reader parameters",
 "No test shows the reader an altered, unmarked or forged picture; rejecting needs the whole chain from bits to signature to judge by the present features, and there are endless ways to alter.",
 WM + SIG + QUA, [("authenticate_channel verifies the signature over the restored cells", R + "watermarking/src/process.rs"), ("restoring the cells from present features and embedded bits", R + "three-bit-quantization/src/lib.rs")],
 "property-based testing: generated attacks on marked pictures, differential against an independent reader",
 "Sixteen kinds of attack; agreement with the reference reader in both directions. Giving up (panic) counts as not accepted.", ["verdict of the reader"], HW)

prop("C03", "Harmless changes leave a marked picture authentic",
 "A marked picture stays authentic after changes which neither make its embedded bits unreadable beyond what the code corrects nor move a feature by a step: pixel noise below the depth's margin, pixels exchanged within a block, up to two lost bits per codeword.",
 ["inputs", "fault_sequences"], "all marked pictures and all changes within the measured tolerance",
 "Selective authentication is the purpose of the system and no test applies any change to a marked picture.",
 WM + EMB + ENC + QUA, [("bits are read by the middle of a quantisation interval", R + "embedding/src/io/steganography.rs"), ("error-correcting code", R + "encoding/src/lib.rs"), ("perturbation bits", R + "three-bit-quantization/src/lib.rs")],
 "property-based testing: generated noise and injected bit losses on marked pictures, invariance of the verdict",
 "Noise up to three grey levels per pixel and injected coefficient errors; tolerance measured by the reference model.", ["verdict of the reader"], HW)

prop("C04", "What is embedded is extracted",
 "Bytes embedded in a picture of any shape, with any depth and number of levels, are extracted again, all of them and nothing more. This holds for every length the picture has room for, with or without an error-correcting code, whenever the pixels cannot saturate and the depth outweighs rounding.",
 ["inputs", "configurations"], "all pictures, payloads within capacity, depths and levels",
 "The tests embed in one 32 by 32 picture; other capacities select other codes, other shapes other coefficient addresses.",
 EMB + ENC, [("embed / extract", R + "embedding/src/lib.rs"), ("record with length header", R + "embedding/src/io/data.rs")],
 "property-based testing: round trip embed/extract over generated pictures and payloads", "Covers every code, non-square domains, 0..4 levels, empty to full payloads.", ["bytes extracted"])

prop("C05", "Extraction survives noise below the margin",
 "Embedded bytes are extracted unchanged after every pixel changed by up to the amount the depth leaves room for. Where the capacity selects an error-correcting code they also survive the loss of single coefficients.",
 ["inputs", "fault_sequences"], "all pictures, payloads, depths and all noise within the margin",
 "No test changes a picture between embedding and extracting.",
 EMB + ENC, [("quarter-interval placement of coefficients", R + "embedding/src/io/steganography.rs"), ("error-correcting code", R + "encoding/src/lib.rs")],
 "property-based testing: round trip under generated noise at the margin", "Noise shapes include the worst case (all pixels of a block the same way).", ["bytes extracted"])

prop("C06", "Embedding changes pixels little, and only where it writes",
 "No pixel changes by more than three quarters of the depth divided by the block side, plus rounding. Pixels of blocks which carry no embedded bit do not change at all, and the result has the size of the source.",
 ["inputs", "configurations"], "all pictures, payloads, depths and levels",
 "Visible damage or a write outside the used blocks changes nothing a fixed expected matrix of another picture would show.",
 EMB, [("coefficients move to the nearest interval of the bit", R + "embedding/src/io/steganography.rs"), ("inverse transform", R + "embedding/src/haar/mod.rs")],
 "property-based testing: bound and locality invariants over generated pictures", "Exact bound derived from the published method; no precondition on saturation.", ["pixels of the result"])

prop("C07", "The mark has the published format",
 "A mark written by this version is found by any reader of the published format, and the other way round: the same bits at the same places, the same record of perturbation bits, signature and text, the same key and the same features. Both hold for every picture and parameter within the preconditions of reading.",
 ["inputs", "configurations"], "all pictures and parameters; marks by this writer and by an independent one",
 "Writer and reader changed together still agree with each other; the tests fix single steps for single inputs.",
 WM + EMB + ENC + QUA + FEA, [("record layout", R + "watermarking/src/watermark.rs"), ("bit order and placement", R + "embedding/src/io/steganography.rs")],
 "property-based testing: differential against an independent reader and an independent writer", "The reference model shares only the LDPC and ed25519 libraries with the code under test.", ["verdict and embedded record"], HW)

prop("C08", "Capacity: what fits is embedded whole, what does not is refused",
 "For every picture size there is a largest payload; every payload up to it is embedded and extracted whole, and every longer one is refused rather than cut off. The limit follows from the number of blocks and the code it selects.",
 ["inputs", "configurations"], "all picture sizes and payload lengths around the limit",
 "Limits lie at sizes no test uses; silent truncation would only show in the reader.",
 EMB + ENC, [("capacity check before writing", R + "embedding/src/io/steganography.rs"), ("code selection by capacity", R + "encoding/src/lib.rs")],
 "property-based testing: boundary-directed generation against a capacity model", "All sizes up to a bound are enumerated, lengths around every limit generated.", ["refusal or extracted bytes"])

prop("C09", "Error-correcting coding is lossless",
 "Decoding what was encoded for the same capacity yields the data, whichever code the capacity selects, for every length the coding accepts, and whatever follows the codewords. Data too long to describe are refused.",
 ["inputs", "configurations"], "all data up to the longest describable, all capacities",
 "The tests encode a few short strings for a few capacities.",
 ENC, [("length header, padding, code by capacity", R + "encoding/src/lib.rs")],
 "property-based testing: round trip and differential against a reference codec", "Lengths around every codeword boundary, trailing bytes and incomplete codewords.", ["decoded bytes"])

prop("C10", "Damaged codewords are corrected",
 "Up to the guaranteed number of flipped bits in every codeword is corrected, at any position including the length header. Decoding any other bytes ends, in a refusal or in no more data than the codewords hold.",
 ["inputs", "fault_sequences"], "all data, capacities and error patterns within the guarantee; all byte strings as input",
 "One test flips a few fixed bits of one codeword.",
 ENC, [("bit-flipping decoder per codeword", R + "encoding/src/lib.rs")],
 "property-based testing with injected bit errors, round trip oracle", "Error counts below what the decoder of the shared library guarantees empirically for every code.", ["decoded bytes"])

prop("C11", "The wavelet transform is exact and is undone by its inverse",
 "The multi-level two-dimensional transform equals the block sums and differences of the Haar basis at every level, for every matrix whose sides allow it. The inverse restores the matrix and energy is preserved.",
 ["inputs", "configurations"], "all matrices of real numbers, square or not, all admissible levels",
 "The tests use small square matrices with whole numbers.",
 [R + "embedding/src/haar/mod.rs"], [("row and column passes per level", R + "embedding/src/haar/mod.rs")],
 "property-based testing: differential against a reference transform, round trip, energy invariant", "Tolerance scaled to the magnitude of the numbers.", ["coefficients"], "the transform (cfg sia_verif_hooks)")

prop("C12", "Coefficients carry the bits written to them",
 "Bytes written to a coefficient matrix of any shape are read back from it, least significant bit first, row after row; each coefficient moves by at most three quarters of the depth, to the middle of an interval of its bit, and the others keep their values. Bytes which do not fit are refused.",
 ["inputs", "configurations"], "all coefficient matrices, bytes and depths",
 "The tests use one square matrix and one depth.",
 [R + "embedding/src/io/steganography.rs", R + "embedding/src/io/mod.rs", R + "embedding/src/io/data.rs"], [("dither quantisation of one coefficient per bit", R + "embedding/src/io/steganography.rs")],
 "property-based testing: round trip, bound and differential against a reference writer", "Negative and huge coefficients, sides of one, depths over five magnitudes.", ["coefficients and bytes"], "writing to and reading from a matrix, framing (cfg sia_verif_hooks)")

prop("C13", "Moments agree with the definition of Zernike moments",
 "The image moment of every order and repetition equals the sum over the pixels of the complex conjugate of the Zernike polynomial at the pixel's position on the unit disc, normalised by order and number of pixels. This holds for every picture, square or not.",
 ["inputs", "configurations"], "all pictures, orders and repetitions",
 "The tests compare a few stored matrices of one size up to order three.",
 ZER, [("radial polynomial and polar angle per pixel", R + "zernike/src/calc.rs")],
 "property-based testing: differential against an independent implementation of the definition", "Reference uses integer coefficients and no gamma function; tolerance 1e-9 relative.", ["moments"])

prop("C14", "Features do not change when the picture is turned or mirrored",
 "Turning a picture by quarter turns, mirroring or transposing it leaves every feature the same up to rounding. Moments change by the phase the definition prescribes.",
 ["inputs"], "all pictures, all eight symmetries",
 "No test compares the features of two related pictures.",
 ZER + FEA, [("magnitude of the moments", R + "zernike/src/lib.rs")],
 "property-based testing: metamorphic relations under the symmetries of the square", "Needs no reference implementation.", ["features and moments"])

prop("C15", "Moments are linear in the picture",
 "The moment of a picture is the sum of the moments of its parts, down to single pixels, and scales with its brightness; a black picture has only zeros. Making the whole picture brighter changes no feature.",
 ["inputs"], "all pictures, parts, factors and offsets",
 "No test relates two pictures.",
 ZER + FEA, [("sum over pixels", R + "zernike/src/calc.rs")],
 "property-based testing: metamorphic linearity relations", "Pixel-wise decompositions of generated pictures.", ["features and moments"])

prop("C16", "The feature vector is what it says",
 "Asking for n features yields exactly n numbers, finite and not negative: the magnitudes of the moments of order 2n-1 with odd repetitions 1, 3, ... in ascending order. Asking again yields the same numbers, and a difference between pictures which the definition shows in the features shows in them.",
 ["inputs", "configurations"], "all pictures and numbers of features",
 "One stored vector for one picture and number of features.",
 FEA + ZER, [("choice of orders and repetitions", R + "zernike/src/lib.rs")],
 "property-based testing: differential against the definition, shape invariants", "1..12 features.", ["feature vector"])

prop("C17", "Perturbation bits restore the cell under noise of less than a step",
 "A feature quantised with its three perturbation bits and then changed by less than a step is restored to the original cell, for features of any size and sign, any step, and each feature of a vector on its own.",
 ["inputs", "configurations"], "all features, steps and noise of less than a step",
 "The tests try a handful of values with one step.",
 QUA, [("cell modulo four and side of the cell", R + "three-bit-quantization/src/lib.rs")],
 "property-based testing: round trip under generated noise", "Places within the cell include both edges; noise up to 0.999 steps.", ["restored cells"])

prop("C18", "A feature is never restored to a cell out of reach",
 "Whatever perturbation bits are given, a feature is restored to a cell within the tolerance of the feature at hand, and to no other cell than the bits and the feature determine. A change of two steps or more never restores the original cell.",
 ["inputs", "configurations"], "all features, bits and steps; changes beyond the tolerance",
 "The tests only show that good cases work, none that bad ones fail.",
 QUA, [("choice among neighbouring cells", R + "three-bit-quantization/src/lib.rs")],
 "property-based testing: soundness bound and differential against a reference restorer", "Any bits, including inconsistent ones.", ["restored cells"])

prop("C19", "Perturbation bits are packed without loss",
 "Packing any number of perturbation bits into bytes and unpacking as many yields the same bits, in the fewest bytes that hold them, with unused bits zero, whatever bytes follow.",
 ["inputs"], "all bit vectors",
 "One or two fixed vectors.",
 QUA, [("perturbation_vector_as_bytes / from_bytes", R + "three-bit-quantization/src/lib.rs")],
 "property-based testing: round trip and differential against bit arithmetic", "0..300 bits, followed by other bytes.", ["bytes and bits"])

prop("C20", "The record survives writing and reading, or is refused",
 "A record of perturbation bits, signature and text is read back field by field as written, whatever follows it; fields which its one-byte lengths cannot describe are refused. Byte strings which hold no complete record are refused and never read as one.",
 ["inputs"], "all records and all byte strings",
 "One fixed record.",
 WM + QUA, [("three length bytes, then the fields", R + "watermarking/src/watermark.rs")],
 "property-based testing: round trip, differential parsing of mutated and random bytes", "Every truncation, every length byte, texts of any Unicode.", ["bytes and fields"], "record to and from bytes (cfg sia_verif_hooks)")

prop("C21", "Signatures are standard, deterministic and accepted",
 "Signing any data with a key pair yields the standard ed25519 signature of 64 bytes, the same each time, which verification with the public key accepts. Generated key pairs are valid, work the same way and differ from each other.",
 ["inputs"], "all data and key pairs",
 "Two fixed messages.",
 SIG + [R + "signature/src/keypair.rs"], [("sign / verify / generate", R + "signature/src/lib.rs")],
 "property-based testing: round trip and differential against the ed25519 library with its own keys", "Keys are derived from arbitrary secrets, in either case of hexadecimal.", ["signature bytes and verdict"], "key generation (cfg sia_verif_hooks)")

prop("C22", "Verification accepts nothing but the genuine signature",
 "Altered data, an altered signature, another key, a signature of wrong length or random bytes are never accepted, and no signature, however malformed, makes verification fail in any other way than by its verdict.",
 ["inputs", "fault_sequences"], "all data, signatures, keys and alterations",
 "One altered message; no malformed signature.",
 SIG, [("verify", R + "signature/src/lib.rs")],
 "property-based testing: mutation of genuine signatures, messages and keys", "Every single-bit flip and every length of one signature are enumerated, the rest is generated.", ["verdict"])

prop("C23", "Numbers survive the way through bytes",
 "Every list of 16-bit and 64-bit numbers converted to bytes, little end first, and back is the same list; a byte string which holds no whole numbers is refused.",
 ["inputs"], "all numbers and lists of numbers",
 "A few small positive numbers.",
 [R + "utils/src/bytes.rs"], [("conversions", R + "utils/src/bytes.rs")],
 "property-based testing: round trip and differential, all 16-bit numbers enumerated", "Exhaustive for 16 bits.", ["bytes and numbers"])

prop("C24", "Hexadecimal text is read strictly and written back the same",
 "Encoding any bytes yields two lower-case digits per byte and decoding yields the bytes again, from either case. Text which is not an even number of hexadecimal digits is an error and never read as something else or a crash.",
 ["inputs"], "all byte strings and all texts",
 "One fixed key string.",
 [R + "utils/src/format.rs"], [("encode_hex / decode_hex", R + "utils/src/format.rs")],
 "property-based testing: round trip and differential, malformed texts of any Unicode", "All pairs of Latin-1 characters enumerated.", ["text, bytes or error"])

prop("C25", "Pseudo-random numbers are reproducible, in range and spread out",
 "The sequence of a generator depends only on its seed and the number of draws since: it is the remainder of a cube by a prime, in double precision, for every seed. Each number lies between zero and one, or evenly scaled in the range asked for, numbers do not repeat at once, and they spread over the interval.",
 ["inputs", "histories"], "all seeds and lengths of sequences",
 "One fixed sequence.",
 [R + "utils/src/pseudo_random.rs"], [("hash of the seed counter", R + "utils/src/pseudo_random.rs")],
 "property-based testing: model-based sequences of interleaved generators, statistical bound", "Interleavings of several generators.", ["numbers"])

prop("C26", "Factorials and matrices of the utilities are exact",
 "The factorial agrees with the product of whole numbers and with the gamma function in between, and satisfies its recurrence. Rows given as lists become the matrix with the same entries, whatever its shape.",
 ["inputs"], "all arguments up to the largest representable factorial, all shapes of matrices",
 "A few small arguments.",
 [R + "utils/src/math.rs", R + "utils/src/lib.rs"], [("factorial", R + "utils/src/math.rs")],
 "property-based testing: recurrence, differential against big products and half-integer closed forms", "All whole arguments up to 170 enumerated.", ["numbers"])

prop("C27", "Marking keeps size, channels and transparency",
 "The marked picture has the size of the source and the same kind of channels, with eight bits each; transparency is kept bit for bit and every colour channel carries its own record and is authentic on its own. Pictures whose sides or size leave no room for the record are refused, never returned unmarked.",
 ["inputs", "configurations"], "all pictures of all sample types and sizes",
 "The tests do not look at transparency, grey pictures, wide samples or other shapes.",
 WM, [("split into channels, mark, put together", R + "watermarking/src/lib.rs")],
 "property-based testing: invariants and reference reader over generated pictures of ten sample types", "Samples of 16 bits and floating point are compared after rounding to eight bits.", ["marked picture"])

prop("C28", "Channels are marked independently of each other",
 "A colour channel of a marked picture is what marking it alone as a grey picture yields, so exchanging channels exchanges the results. Transparency has no influence on the colours.",
 ["inputs", "configurations"], "all colour pictures and parameters",
 "No test compares two ways to mark the same samples.",
 WM, [("one call per channel", R + "watermarking/src/lib.rs")],
 "property-based testing: metamorphic and differential relations between channels", "Exact equality, including saturating depths.", ["marked picture"])

prop("C29", "Results depend on the arguments alone",
 "Every operation of the library returns for the same arguments the same result, bit for bit, whatever was called before and whatever runs at the same time in other threads.",
 ["histories", "schedules"], "all histories and concurrent schedules of calls",
 "Tests call each function in a fresh state, once.",
 WM + EMB + ENC + QUA + SIG + ZER + FEA + UTI, [("no shared state", R)],
 "stateful property-based testing: generated call histories, in turn and in threads, against single calls in processes of their own",
 "Thread schedules are those the machine produces; histories are generated to share some arguments and differ in others.", ["results"])

prop("C30", "The command line writes each file's marked picture under its name",
 "For every readable input the program writes the library's result in the input's file format to a file named after the input and the suffix, in the chosen folder, which it creates if needed, or the current one. Inputs and all other files stay as they are and the program reports success.",
 ["inputs", "configurations", "histories"], "all lists of input files, formats, names, suffixes, output folders and arrangements of options",
 "The command line has no tests.",
 CLI + WM, [("loop over the inputs", R + "cli/src/main.rs")],
 "property-based testing: generated invocations of the built program in a scratch folder, file system compared before and after", "Runs as an unprivileged user; oracle is the library.", ["files and exit code"])

prop("C31", "What the command line cannot do it refuses without damage",
 "Without a suffix or inputs, or asked for help, the program writes nothing. Unusable options, output folders or inputs end with a failure and leave no result for that input and no changed file, while results of inputs before it stay.",
 ["inputs", "fault_sequences"], "all invocations which cannot succeed",
 "The command line has no tests.",
 CLI, [("checks before writing", R + "cli/src/main.rs")],
 "property-based testing with fault injection: unusable inputs, options and folders, file system compared before and after", "Eight ways to fail, ten kinds of unusable input.", ["files and exit code"])

prop("C32", "The browser library hands over the decoded and the marked picture",
 "For every readable picture file the browser library names the right format and hands over source and marked picture with right width, height and four samples per pixel, equal to the decoded file and the library's result. What is no usable picture is refused, and the handed-over models keep what is set, each on its own.",
 ["inputs", "histories"], "all picture files, depths and steps; all histories of setters",
 "The tests only check sizes and formats of one tiny file per format and never make a process.",
 WEB + WM, [("get_watermarking_process", R + "web/src/lib.rs")],
 "property-based testing: differential against the image readers and the library, model-based setter histories, with stand-ins for JavaScript", "The JavaScript boundary itself is replaced by stand-ins.", ["models handed over"])

prop("C33", "The page hands the chosen file's bytes to the library, and back its result",
 "Whatever file is chosen, of whatever media type, the library receives exactly its bytes with the given depth and step, and the page receives exactly the library's format, sizes and samples, as copies of its own. Files read at the same time do not mix, and a file which cannot be read is an error.",
 ["inputs", "schedules"], "all files, media types, completion orders and library results",
 "The page's only test renders a loading message.",
 TS, [("data URL decoding, model conversion", "src/Content/utils.ts")],
 "property-based testing (fast-check): round trip and recording stand-ins with generated completion orders", "Browser interfaces are stand-ins.", ["bytes handed to the library, models handed back"])

prop("C34", "The page shows the picture chosen last and its marked version",
 "Whatever pictures are chosen, in whatever order their files are read, the page shows one picture with its own marked version, format and size, sample for sample. That is the picture chosen last as soon as it has been read; a picture which cannot be used or is chosen by nobody is never shown, and an earlier choice never replaces a later one.",
 ["inputs", "schedules", "histories"], "all sequences of choices, orders of completion, unusable files and library results",
 "The page's only test renders a loading message.",
 PAGE, [("state of the page, order of reading", "src/Content/Content.tsx"), ("drawing when data or size change", "src/Canvas/Canvas.tsx")],
 "stateful property-based testing (fast-check): generated histories of choices and completions, the page run on a small React with a drawing canvas",
 "React, the browser and the library are stand-ins; rendering once and twice (strict mode) are both generated.", ["pixels of the canvases, text"])

prop("C35", "Reading any picture ends, with what it holds or a refusal",
 "Extracting from any picture whatever, marked, unmarked or prepared by somebody else, ends in a refusal or in exactly the bytes which a reader of the published format finds there. Length headers which contradict the picture or each other never lead beyond the picture's own bytes, nor to anything but a refusal.",
 ["inputs", "fault_sequences"], "all pictures, including those which hold well-formed codewords around arbitrary length headers and damaged codewords",
 "The tests read back what they have just written.",
 EMB + ENC, [("length headers", R + "encoding/src/lib.rs"), ("record with length header", R + "embedding/src/io/data.rs")],
 "property-based testing: structure-aware generation of forged contents, differential against a reference reader",
 "Contents are forged below the code, between code and payload, and at random.", ["bytes extracted or refusal"])

prop("C36", "The mark depends on the order of the grey levels only",
 "Pictures which differ by a strictly increasing map of their grey levels, such as brightness or contrast, receive the same record, since features are those of the equalised picture. The mark of one verifies on the other as its own does.",
 ["inputs", "configurations"], "all pictures within the range which cannot saturate and all increasing maps of their grey levels",
 "No test compares the records of related pictures.",
 WM + FEA, [("equalisation before the moments", R + "image-features/src/lib.rs")],
 "property-based testing: metamorphic relation between pictures with remapped grey levels", "Records are read by the reference reader.", ["record"], HW)

prop("C37", "The command line reports each result and the time it took truly",
 "For every picture it marked the program reports the path of the result, the numbers of channels before and after, and the time taken. A time is shown in the largest unit of which at least one has passed, cut off and never rounded up: whole ns, \u00b5s or ms, hundredths of seconds below ten, whole seconds beyond. Asked for help, or without inputs, it shows how it is used.",
 ["inputs", "configurations"], "all times up to hours, all pictures, suffixes and output folders",
 "No test runs the program or shows a time.",
 CLI + [R + "cli/src/timer.rs"], [("Display of Elapsed", R + "cli/src/timer.rs"), ("report of each result", R + "cli/src/main.rs")],
 "property-based testing: generated times compared with the interval the text stands for, generated runs of the built program",
 "Times are generated densely around the changes of the unit.", ["standard output"])


open(ROOT + "/properties.jsonl", "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p, _, _ in P))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Add verification hooks"], capture_output=True, text=True).stdout.split()
manifest = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "hooks": {"guard": "cfg(sia_verif_hooks)", "enable": 'RUSTFLAGS="--cfg sia_verif_hooks" (run.sh); a check falls back to the public interface if the hooks do not build', "source_commits": hook},
    "checks": [dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
                    technique=t, level="exploration", level_note=n) for p, t, n in P],
    "not_applicable": [],
    "notes": "run.sh ID [quick|thorough] builds the check against /repo and runs it; run.sh ID --replay FILE repeats one saved case. See DESIGN.md.",
}
json.dump(manifest, open(ROOT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
for p, _, _ in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    if n > 3: print(p["id"], n, "sentences")
