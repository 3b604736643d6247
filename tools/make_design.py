"""Writes DESIGN.md from tools/design_head.md, the evidence of the last quick run and tools/design_tail.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01":("full product of rates x frame lengths x hops x signal lengths around every frame boundary; lengths about every power of two; dtypes x layouts x containers; writes to either side","direct slicing; count formula; ParameterError iff window < hop","contents, counts and aliasing for every length; tests check only frame_length on one ramp"),
"C02":("all words over 3-5 sample values up to length 6-8 x coefficients; every signal length (to 2^18) and a dense sweep of coefficients; all window types x every length; many, 1-D and complex frames; zero handling on all words over {0,-0,tiny,denormal,...} and large arrays","difference equation; closed-form windows; element-wise rule","every short signal, every window length"),
"C03":("dense grids (thousands of points) of 0..24 kHz and of the scales, per approach; arrays vs scalars","published formulas; strict monotonicity; both round trips","whole range instead of 15 values below 30 Hz"),
"C04":("product nfilts x nfft (even, odd, tiny) x fs x band limits x approach x kind","triangles on k*fs/nfft, every weight; mirrored bank; centres in row order","every weight of every configuration; tests check shapes"),
"C05":("product nfilts x nfft x fs x limits x approach x kind; exponent of the gammatone bandwidths; the curve at its exact end points","Hermansky's curve at every covered bin; 4th-order gammatone magnitude (z-domain product form) with unit peak; centre formulas","as C04"),
"C06":("every bank configuration x scale; every extractor and spectrogram x scale lattice","constant bank times j/nfilts ordered by centre; model with scaled bank","no test looks at a scaled value"),
"C07":("dense one-parameter sweeps; 2 (3) deviations (core alphabet: 3 (4)) over signal, length, rate, window, FFT size, nfilts, limits, scale, pre-emphasis, coefficient, approach, supplied bank; tiny FFT sizes against an explicit DFT; recordings of up to 4097 frames","pre-emphasis, slicing, closed-form window, rFFT/DFT, bank of C04/C05","no test inspects a spectrogram value"),
"C08":("dense one-parameter sweeps (every value of a fine grid per parameter); 2 (3) deviations over 16-19 parameters of the eight extractors (incl. supplied banks with other row counts, empty bands, DC weight), bare default calls, recordings of 65..4097 frames; three (four) deviations over a core alphabet","model pipeline incl. post-processing","values are never checked by tests"),
"C09":("every num_ceps class x 2 (3) deviations; every signal length over three hops; CQCC ratios; supplied banks","frame count formula; nesting against the longest extraction","row counts never tested, nesting neither"),
"C10":("every frame position and every prefix/suffix at hop boundaries in every configuration; all words of frame types","extraction of the frame / part alone","no test splits a signal"),
"C11":("liftering and normalisation on all small matrices (and up to 300 columns) x parameters; every extractor x (energy, lifter, norm) product x configurations","closed forms; model post-processing of the plain extraction; energy from the model spectrum","energy compared only with itself in tests"),
"C12":("matching bank vs none over the lattice; up to 16 kinds of matrices (noise, permuted, signed, empty rows, all zero, integer, strided ...) x configurations; other row counts","identity; model with exactly that matrix; bank bytes unchanged","tests use matching banks only"),
"C13":("gains 2^-20..2^15 x 3 (4) deviations of 15 extractors; YIN and dominant lattice","exact response law in g (log, power, invariance)","no test scales a signal"),
"C14":("40 degenerate and faint (to 1e-100, predictors to 1e-310) signals x 3 (4) deviations x all extractors (incl. banks with empty bands); all words of 7 frame types; descriptors, dominant, YIN products","finite, documented shape, no exception","tests use one speech file"),
"C15":("full product dtypes x layouts for every signal-taking function and configuration variants","contiguous float64 result","tests use one int16 array"),
"C16":("every operation x {repeat, buffer reuse, window mutated, rejected call first, 10 special contents, long histories, three settings of the error state}; all ordered pairs of configurations per function, including neighbours that differ by 1e-6 in one parameter; all ordered pairs of functions (thorough: triples)","result of the call alone in a fresh process; argument bytes; memory sharing; numpy error state, python and numpy random state","tests never re-examine inputs or earlier results"),
"C17":("all switch points before every executed line, same function same/different configuration; cross pairs at first executions; both threads holding the same objects; every schedule from a fresh process (state built on first use); two preemptions at entries/exits (thorough: lines), byte codes (thorough); a thread blocked by a lock of the code under test is let go (1.5 s patience), so caches and locks are no alarm","sequential results of a fresh process; argument bytes","tests are single threaded"),
"C18":("full product below/at/above each limit, pairs of limits, every bank/spectrogram/extractor/framing, odd rates","ParameterError iff outside; documented shape inside","no boundary value is tested"),
"C19":("all frames over {-1,0,1,2}-like alphabets with all orders (windows folded out), lattice of signals x windows x orders, recursion for all (p, nceps)","normal equations residual, error formula, recursion","tests check column counts"),
"C20":("2 (3) deviations of PLP/RASTA-PLP; all rows over an alphabet for the RASTA filter","model pipeline; difference equation","tests check column counts"),
"C21":("all input histories over a small alphabet up to 6-8 frames for every stage; channel words for smoothing; lattice for the extractor","published recurrences step by step; invariants","tests check column counts"),
"C22":("lattice of cqt and cqcc; band limits exactly at bins; the transform itself on frame lists; a tone at every analysed frequency","time-domain correlation with the windowed exponential (Parseval) with thresholded kernel; DCT/resample model","tests check shapes"),
"C23":("difference function on all short frames; normalisation and threshold search on all sequences x lag ranges x thresholds; estimator lattice; a periodic frame for every period of the lag range","explicit sums; literal search; fs/T","the only test asserts not None"),
"C24":("a tone at every bin for several sizes and rates; lattice of adversarial signals, windows, sizes, band-pass","arg-max of the explicit spectrum (ties to rounding accepted)","the only test asserts not None"),
"C25":("all spectra over an alphabet with complex phases for each descriptor; extractor on signal x size x rate x gain","defining sums; ranges; gain invariance","the only test counts 12 values"),
"C26":("all rows over an alphabet up to a length x window sizes; several rows","slope sum with clamped indices; linearity; shape","two windows on one ramp, one decimal"),
"C27":("all small matrices over an alphabet x dbf x extents; options lattice; bank types","image data, extent, orientation, curves, tick labels, texts of the drawn artists; data unchanged","tests only call the functions"),
"C28":("62 public functions, classes and plots x 2 configurations: every positional prefix, every left-out single and pair (thorough: triple), every prefix with the rest left out, every numeric parameter x type, other documented spellings of defaults","the fully spelled-out call by name (its value is judged by the other checks) with the pinned table of parameter order and defaults","one call form per function")
}

P = {p["id"]: p for p in map(json.loads, open(V + "/properties.jsonl"))}
out = []
for i in sorted(P):
    c = json.load(open(f"{V}/evidence/{i}.json"))
    w, c = c["wall_s"], c["coverage"]
    out.append(f"**{i} {P[i]['title']}.** *Explored:* {T[i][0]}. *Oracle:* {T[i][1]}. *Bounds/cost (quick):* {c['states']} states, "
               f"{c['traces_validated_against_impl']} traces validated, about {max(1, round(w))} s on 8 cores; thorough: larger alphabets, one more "
               f"deviation, deeper words. *Beyond the tests:* {T[i][2]}.\n")
seeds = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
tab = ["| property | planted bug | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
MISS = {l.split()[0]: " ".join(l.split()[1:]) for l in open(V + "/tools/seed_notes.txt") if l.strip()}
tab += [f"| {p} | {n} | {b} | {k} | {MISS.get(n, p)} |" for p, n, b, k in sorted(seeds)]
head, tail = open(V + "/tools/design_head.md").read(), open(V + "/tools/design_tail.md").read()
defects = "\n".join("* " + l.split(":", 1)[1].strip() for l in open(V + "/known_findings.txt") if l.startswith("fixed:"))
open(V + "/DESIGN.md", "w").write(head.rstrip() + "\n\n" + "\n".join(out) + "\n" + tail.replace("@DEFECTS@", defects).replace("@SEEDS@", "\n".join(tab)))
