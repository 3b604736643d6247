"""Writes /verif/properties.jsonl (kept as a script because JSON lines are awkward to edit by hand)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PRE = "spafe/utils/preprocessing.py"; CEP = "spafe/utils/cepstral.py"; CONV = "spafe/utils/converters.py"
FIL = "spafe/utils/filters.py"; SPEC = "spafe/utils/spectral.py"; VIS = "spafe/utils/vis.py"
MELB = "spafe/fbanks/mel_fbanks.py"; LINB = "spafe/fbanks/linear_fbanks.py"
BARKB = "spafe/fbanks/bark_fbanks.py"; GAMB = "spafe/fbanks/gammatone_fbanks.py"
F = lambda n: f"spafe/features/{n}.py"
ALLF = [F(n) for n in "mfcc lfcc gfcc bfcc ngcc msrcc psrcc pncc cqcc lpc rplp".split()]

prop("C01", "Framing yields exactly the full overlapping frames of the signal",
 "For every mono signal of N samples and every sampling rate and window length >= hop (both at least one sample, N >= L), framing returns floor((N-L)/H)+1 frames, L=int(win_len*fs), H=int(win_hop*fs), where frame i is samples i*H .. i*H+L-1 of the signal, unchanged and in order, and reports L. This holds for every signal dtype, container and memory layout, and the frames are detached from the caller's signal: writing to one never changes the other. A window length smaller than the hop is rejected with the library's parameter error.",
 ["inputs", "configurations"], "all signal lengths, frame lengths, hops, rates, dtypes and memory layouts",
 "the tests check only frame_length and a coarse size bound for a contiguous 48000-sample ramp; frame contents, counts and aliasing are never compared",
 [PRE], [("framing", PRE), ("stride_trick (as_strided over a fresh copy)", PRE)], ["spafe.utils.preprocessing.framing"])

prop("C02", "Pre-emphasis, windowing and zero handling follow their definitions",
 "Pre-emphasis returns y[0]=x[0], y[t]=x[t]-a*x[t-1] for every signal and coefficient a (a=0 leaves the signal unchanged). Windowing multiplies every frame, sample by sample, by the symmetric window of the requested type (hanning, bartlet, kaiser with beta 14, blackman, hamming) of the given length. Zero handling replaces exactly the elements equal to zero by machine epsilon and returns every other element unchanged.",
 ["inputs", "configurations"], "all signals over a small alphabet up to a bounded length, all window types and lengths, all coefficients of a grid",
 "the tests pre-emphasise one 5-sample ramp and evaluate windowing on two 3-sample frames with an assertion that can hardly fail",
 [PRE], [("pre_emphasis", PRE), ("windowing", PRE), ("zero_handling", PRE)])

prop("C03", "Hz <-> mel/bark/erb conversions are increasing and mutually inverse",
 "For every supported approach, converting Hz to mel, bark or erb is strictly increasing in frequency and follows the published formula of that approach. Converting to the scale and back (and from the scale and back) returns the original value to rounding accuracy over the whole audio range (Zwicker: f > 0). A conversion of an array equals the element-wise conversion of its members, wherever arrays are accepted.",
 ["inputs", "configurations"], "all frequencies of a dense grid over 0..24 kHz (and the matching scale values), all approaches",
 "the tests compare most converters with themselves on 15 values below 30 Hz; only erb is round-tripped",
 [CONV], [("hz2erb/erb2hz", CONV), ("hz2bark/bark2hz", CONV), ("hz2mel/mel2hz", CONV)])

prop("C04", "Mel, linear and inverse-mel banks are triangles on the real FFT-bin axis",
 "For every valid configuration, the mel, linear and inverse-mel filter banks have one row per filter and one column per FFT bin 0..nfft//2, and column k weights frequency k*fs/nfft. Mel and linear filters are unit-peak triangles whose edges and centres are nfilts+2 points equally spaced on the mel resp. Hz scale between the band limits (upper limit fs/2 when not given); the inverse-mel bank is the mel bank mirrored about the middle of the band. The centre frequencies returned (in mel resp. Hz) are those of the rows, in row order.",
 ["configurations"], "all combinations of nfilts, nfft (even, odd, non power of two), fs, band limits, conversion approach within the alphabet",
 "the tests check only the matrix shape and two error cases for one band",
 [MELB, LINB], [("mel_filter_banks_helper", MELB), ("inverse_mel_filter_banks", MELB), ("linear_filter_banks", LINB)])

prop("C05", "Bark and gammatone banks follow their auditory filter definitions",
 "For every valid configuration, the Bark bank evaluates Hermansky's critical-band curve (0 below -1.3 Bark, 10^(2.5(d+0.5)) up to -0.5, 1 up to +0.5, 10^(0.5-d) up to 2.5, 0 above) at each covered FFT bin around centres equally spaced in Bark between the band limits. The gammatone bank holds the magnitude response of 4th-order gammatone filters at ERB-spaced centres, with bandwidths 1.019 times the ERB ((f/9.26449)^n+24.7^n)^(1/n), n the order parameter (default 4), each row normalised to a peak of one. Both have nfilts rows and nfft//2+1 columns of weights in [0,1] and return the centre frequencies of the rows, increasing, in Bark resp. ERB.",
 ["configurations"], "all combinations of nfilts, nfft, fs, band limits, conversion approach within the alphabet",
 "the tests check only the matrix shape and two error cases for one band",
 [BARKB, GAMB], [("Fm, bark_filter_banks", BARKB), ("generate_center_frequencies, compute_gain, gammatone_filter_banks", GAMB)])

prop("C06", "Filter-bank scaling only re-weights rows, monotonically in frequency",
 "For every filter-bank type and configuration, the 'ascendant' ('descendant') bank is the 'constant' bank with the filter of j-th lowest centre frequency multiplied by j/nfilts (by (nfilts+1-j)/nfilts), and nothing else: centre frequencies and filter shapes do not change. The requested scale is honoured by every spectrogram and cepstral extractor that builds its own bank.",
 ["configurations"], "all bank types, scales and bank configurations of the alphabet; all extractors taking a scale",
 "the tests request the three scales but look only at the shape of the result; no extractor is tested with a scale",
 [FIL, MELB, LINB, BARKB, GAMB], [("scale_fbank", FIL), ("inverse scale map", MELB)])

prop("C07", "Spectrograms are the framed power spectrum times the filter bank",
 "For every signal and configuration, the mel, linear, Bark and ERB spectrograms return (A) the nfft//2+1 FFT magnitudes of every pre-emphasised (with the requested coefficient), framed and windowed frame and (B) the product of the power spectrum |FFT|^2/nfft with the filter bank of the requested parameters, one row per frame. All weights being non-negative, the spectrogram is non-negative.",
 ["inputs", "configurations"], "all configurations within two (quick) or three (thorough) deviations from the default over all parameters, on a set of adversarial signals",
 "no test looks at the value of any spectrogram; each is only called for plotting",
 [F("mfcc"), F("lfcc"), F("bfcc"), F("gfcc"), PRE], [("mel_spectrogram", F("mfcc")), ("linear_spectrogram", F("lfcc")), ("bark_spectrogram", F("bfcc")), ("erb_spectrogram", F("gfcc"))])

prop("C08", "Filter-bank cepstra equal their documented extraction pipeline",
 "For every signal and configuration, MFCC, IMFCC, LFCC, GFCC, BFCC, NGCC, MSRCC and PSRCC equal the first num_ceps coefficients of the orthonormal DCT of the requested type, per frame, of the documented nonlinearity (log; cube root for GFCC; intensity-loudness law then log for BFCC; gamma-power for MSRCC and PSRCC, the latter on phase in degrees 0..360) of the filter-bank output. Parameters left at their default behave as documented (upper limit fs/2, built-in sliding window of 25 ms / 10 ms hamming).",
 ["inputs", "configurations"], "all configurations within two (quick) or three (thorough) deviations from the default over all parameters, on a set of adversarial signals",
 "the tests compare an extractor only with itself (same call repeated, or post-processing reapplied) on one wav file and nearly one configuration; a wrong value is invisible",
 [F("mfcc"), F("lfcc"), F("gfcc"), F("bfcc"), F("ngcc"), F("msrcc"), F("psrcc")],
 [("mfcc/imfcc", F("mfcc")), ("lfcc", F("lfcc")), ("gfcc", F("gfcc")), ("bfcc", F("bfcc")), ("ngcc", F("ngcc")), ("msrcc", F("msrcc")), ("psrcc", F("psrcc"))])

prop("C09", "Feature matrices are frames x num_ceps and nested in num_ceps",
 "For every signal and configuration, every cepstral extractor returns one row per frame (CQCC: int(frames*resampling_ratio) rows) and exactly num_ceps columns (LPC, LPCC, PLP, RPLP: order columns). For the DCT-based extractors without normalisation, asking for k coefficients returns exactly the first k columns of what asking for more coefficients returns.",
 ["inputs", "configurations"], "all signal lengths around frame boundaries, all num_ceps up to nfilts, all extractors, window and FFT settings",
 "the tests check the column count for two num_ceps values on one file; rows are checked for CQCC only",
 ALLF, [("[:, :num_ceps] slice after the DCT", "every spafe/features extractor"), ("one row per frame", "every spafe/features extractor")])

prop("C10", "Each feature row depends only on the samples of its own frame",
 "Without normalisation, row i of every frame-wise extractor (all spectrograms, MFCC, IMFCC, LFCC, GFCC, BFCC, NGCC, MSRCC, PSRCC, LPC, LPCC, PLP, RPLP and the CQT) equals what the extractor returns for frame i of the pre-emphasised signal alone, so extraction can be chunked at hop boundaries and appending samples never changes earlier rows. PNCC rows depend only on frames up to two after their own.",
 ["inputs", "configurations", "histories"], "all frame positions of all signals of the alphabet, all split points at hop boundaries, all extractors and window settings",
 "the tests never compare extraction of a part with extraction of the whole",
 ALLF + [PRE, SPEC], [("framing before any per-frame step", PRE), ("per-frame FFT/DCT/LPC along axis 1", "spafe/features/*.py")])

prop("C11", "Energy, liftering and normalisation are exact, ordered post-processing",
 "For every extractor and configuration, use_energy replaces only coefficient 0 by the log of the frame's total power and leaves the rest unchanged; then liftering and then normalisation are applied, exactly as the stand-alone functions do. Liftering leaves lift 0 and lift > 10 unchanged, multiplies coefficient n by n^lift (coefficient 0 by 1) for 0 < lift <= 10, and by 1+(L/2)sin(pi(n+1)/L) for negative lift -L; normalisation 'ms'/'mvn' subtracts each column's mean, 'vn'/'mvn' divide by the overall standard deviation, 'mn' subtracts the overall mean and divides by the overall range.",
 ["inputs", "configurations"], "all lifters and normalisations of the alphabet on all small matrices and on all extractors",
 "the tests exercise lifters {0.7,-7} and {mvn, ms} on one file to 3 decimals and compare energy only with itself",
 [CEP] + ALLF, [("lifter_ceps, normalize_ceps", CEP), ("use_energy branch", "spafe/features/*cc.py")])

prop("C12", "A supplied filter bank is used as given; the matching one changes nothing",
 "For every extractor and spectrogram accepting a predefined filter bank, passing the bank it would have built for the same parameters gives the same result as passing none. Any other supplied bank is used exactly as given (not re-scaled, re-ordered, truncated or modified in place).",
 ["inputs", "configurations"], "all bank configurations of the alphabet, all extractors; arbitrary supplied matrices",
 "the tests compare default and predefined banks for one band on one file, never a bank differing from the default one",
 ALLF, [("if fbanks is None", "spafe/features/*.py")])

prop("C13", "Features respond to gain and polarity exactly as their definition says",
 "Scaling the signal by g > 0 adds 2*ln(g)*sqrt(nfilts) to coefficient 0 and changes nothing else for MFCC, IMFCC, LFCC, NGCC (DCT type 2; CQCC likewise with its number of bins), multiplies GFCC by g^(2/3) and MSRCC by g^(2*gamma), leaves PSRCC (without energy), LPC coefficients, YIN pitch and dominant frequencies unchanged, multiplies the LPC error by g^2; with use_energy coefficient 0 grows by 2*ln(g) instead. Inverting the polarity changes none of these features except PSRCC, nor BFCC, PNCC, PLP, RPLP.",
 ["inputs", "configurations"], "all gains of the alphabet (powers of two and others, both signs), all signals without empty bands, all extractors",
 "no test scales or inverts a signal",
 ALLF + ["spafe/frequencies/fundamental_frequencies.py", "spafe/frequencies/dominant_frequencies.py"], [("power spectrum then log/root", "spafe/features/*.py")])

prop("C14", "Silence and other degenerate audio never yield NaN, infinity or a crash",
 "For every signal of finite samples within the range of digital audio (int16 or +-1 full scale; non-zero samples at least 1e-100) containing at least one full frame - including digital silence, silent gaps, impulses, constants, full-scale alternation and quantised low-level signals - every feature extractor, spectrogram, spectral-descriptor and dominant-frequency function, and the pitches of the YIN function, are finite in all valid configurations (no normalisation requested).",
 ["inputs", "configurations"], "all degenerate signals of the alphabet (all placements of silent frames in short signals), all extractors, window/energy/scale settings",
 "the only signal the tests use is a speech recording without digital silence",
 ALLF + [PRE, F("spfeats")], [("zero_handling before log", PRE), ("inf/nan replacement", F("psrcc"))])

prop("C15", "Results do not depend on how the signal is represented in memory",
 "For every extractor and function taking a signal, the same sample values give the same result whether passed as int8, int16, int32, float32 or float64 array, contiguous or not (strided, reversed, sliced from a larger buffer), read-only, big-endian, or as a list (where lists are accepted); float32 to the precision of that type.",
 ["inputs"], "all dtypes x layouts of the alphabet for every signal-taking function",
 "the tests use the int16 array that the wav reader returns and nothing else",
 ALLF + [PRE], [("np.array copy in stride_trick", PRE), ("float windows promote", PRE)])

prop("C16", "Every call is a pure function of its arguments, whatever came before",
 "No function modifies its array arguments or its window object or leaves numpy's global error state or random generator changed, and the result of a call depends only on its arguments: after any sequence of other calls (other functions, other parameters, failing calls) and after the caller overwrites earlier inputs or earlier results, a call returns what it would return in a fresh process. Results never share memory with arguments or with the results of other calls (liftering that has nothing to do may return its argument).",
 ["histories", "inputs"], "all sequences of calls up to the depth bound over the whole public API with several configurations per function, interleaved with in-place overwriting of earlier inputs and results and with rejected calls",
 "each test makes a few calls in a fixed order and never re-examines inputs or earlier results",
 ALLF + [PRE, MELB, LINB, BARKB, GAMB, CEP, SPEC, FIL], [("no module-level mutable state; fresh arrays in every function", "spafe/**")])

prop("C17", "Concurrent calls from several threads return the sequential results",
 "When two threads call any functions of the library at the same time, on the same or different data, each call returns exactly what it returns when run alone, for every interleaving of the two calls.",
 ["schedules"], "all interleavings of two calls with one preemption at every executed source line for every function paired with itself (cross pairs: at the first execution of every line) and with two preemptions at function entries and exits; thorough: two preemptions at lines, one at every byte-code instruction",
 "the tests are single threaded",
 ALLF + [PRE, MELB, LINB, BARKB, GAMB, CEP, SPEC, FIL], [("no shared mutable state", "spafe/**")])

prop("C18", "Invalid parameters are rejected, and valid boundary values accepted",
 "Every filter bank, and every extractor or spectrogram building one, raises the library's parameter error if the lower band limit is negative or the upper one exceeds half the sampling rate (the CQT and CQCC: the upper one), every cepstral extractor with a filter bank raises it if num_ceps (order) exceeds nfilts, and everything that frames raises it if the window is shorter than the hop. The boundary values themselves (0, fs/2, num_ceps equal to nfilts, window equal to hop) are accepted and give a result of the documented shape.",
 ["configurations"], "all functions x all combinations of below/at/above each limit",
 "the tests try one invalid value each for some of the functions and no boundary value",
 [PRE, MELB, BARKB, GAMB] + ALLF, [("ParameterError checks", "spafe/fbanks/*.py, spafe/features/*.py, framing")])

prop("C19", "LPC is the optimal linear predictor and LPCC its cepstral recursion",
 "For every frame with energy, the LPC row starts with 1 and its coefficients solve the autocorrelation normal equations of the pre-emphasised, windowed frame of the requested order; the error term is the minimal prediction error energy r[0]+sum a[k]r[k], hence non-negative and not increasing with the order. LPCC rows are log(error) followed by the LPC-to-cepstrum recursion c[m]=a[m]+sum_{k<m}(k/m)c[k]a[m-k] (a[j]=0 beyond the model order), also for more or fewer cepstra than predictor coefficients.",
 ["inputs", "configurations"], "all small frames over a small alphabet and all orders, the windows and signals of the alphabet",
 "the tests check only the number of columns and that liftering/normalisation commute",
 [F("lpc")], [("__lpc_helper (autocorrelation, Toeplitz solve)", F("lpc")), ("lpc2lpcc", F("lpc"))])

prop("C20", "PLP and RASTA-PLP equal their documented extraction pipeline",
 "For every signal and configuration, PLP is the LPC cepstrum (order coefficients) of the magnitude of the inverse FFT of the cube-root compressed, equal-loudness weighted Bark power spectrum of each frame, and RASTA-PLP is the same with the log Bark spectrum passed through the RASTA band-pass filter (5-tap slope numerator, single pole 0.94, first four outputs suppressed). The RASTA filter treats every row of its input independently and is linear.",
 ["inputs", "configurations"], "all configurations within two deviations from the default, all small matrices for the RASTA filter",
 "the tests check column counts and self-consistency on one file",
 [F("rplp"), FIL, F("lpc")], [("__rastaplp", F("rplp")), ("rasta_filter", FIL)])

prop("C21", "PNCC and each of its stages follow the published recurrences",
 "Medium-time power is the 5-frame average (zero padded); the asymmetric low-pass starts at 0.9 of its first input and then follows the two-rate recurrence, so it never exceeds the running maximum of its input; temporal masking keeps values above 0.85 of the decayed peak and replaces others by 0.2 of the previous peak; weight smoothing averages R/Q over the channels within N of each channel; mean power is tracked with factor 0.999 from 1e-4. PNCC is the DCT of the 1/15 power of the signal power weighted and normalised by these stages in this order.",
 ["inputs", "histories", "configurations"], "all input histories over a small alphabet up to a bounded number of frames for each recursive stage; all configurations within two deviations for the extractor",
 "the PNCC tests check the number of columns only",
 [F("pncc")], [("medium_time_power_calculation, asymmetric_lowpass_filtering, temporal_masking, weight_smoothing, mean_power_normalization", F("pncc"))],
 state=[{"name": "Q_tilde_out", "meaning": "state of the asymmetric low-pass filter", "where": F("pncc")}, {"name": "online_peak_power", "meaning": "decaying peak of the temporal masking", "where": F("pncc")}, {"name": "myu", "meaning": "running mean power", "where": F("pncc")}])

prop("C22", "The constant-Q transform and CQCC follow the Brown-Puckette definition",
 "For every configuration, row k of the constant-Q transform belongs to the k-th geometrically spaced frequency f0*2^(k/bins) within the band whose window ceil(Q*fs/f) fits into nfft points, and each value is the correlation of the frame with the centred, windowed complex exponential of that frequency (spectral kernel entries at most the threshold dropped). CQCC is the DCT of the log power of the transform, resampled in time to int(frames*ratio) rows.",
 ["inputs", "configurations"], "all configurations within two deviations from the default on adversarial signals; every analysed frequency probed with a tone",
 "the tests check shapes and self-consistency on one file, and that the transform function exists",
 [SPEC, F("cqcc")], [("compute_constant_qtransform", SPEC), ("cqt_spectrogram, cqcc", F("cqcc"))])

prop("C23", "YIN reports the true period of periodic frames, in range, else unvoiced",
 "For every frame, the difference function is sum_j (x[j]-x[j+tau])^2 over the frame and its cumulative-mean normalisation starts at 1; the reported period is the first local minimum reached after the normalised difference falls below the threshold within the lag range of [low_freq, high_freq], and pitch 0 with the overall minimum as harmonic rate if there is none. A frame of period T samples in that lag range (and no shorter period) is reported as fs/T, and one estimate with its start time is returned per analysis window.",
 ["inputs", "configurations", "histories"], "all small frames and all normalised-difference sequences over a small alphabet, all lag ranges and thresholds; all periods of the lag range",
 "the only test checks that the result is not None",
 ["spafe/frequencies/fundamental_frequencies.py"], [("compute_difference, compute_cmnd, get_pitch, compute_yin", "spafe/frequencies/fundamental_frequencies.py")])

prop("C24", "The dominant frequency is the frequency of the strongest FFT bin of a frame",
 "For every signal and configuration, one frequency per frame is returned, equal (to 3 decimals) to k*fs/nfft for the FFT bin k of greatest magnitude of the windowed (and, if requested, Butterworth band-passed) frame, so all lie in [0, fs/2] and a stationary tone at any bin frequency is reported at that frequency.",
 ["inputs", "configurations"], "tones at every FFT bin, all FFT sizes, rates and window settings of the alphabet, adversarial signals",
 "the only test checks that the result is not None",
 ["spafe/frequencies/dominant_frequencies.py"], [("get_dominant_frequencies", "spafe/frequencies/dominant_frequencies.py")])

prop("C25", "Spectral descriptors are well-defined statistics of the magnitude spectrum",
 "For every signal with energy, the 12 extracted descriptors are finite real scalars: centroid, spread, skewness and kurtosis are the documented amplitude-weighted moments over the frequencies 0..fs/2 (so 0 <= centroid <= fs/2 and a tone's centroid is its frequency), entropy (normalised) and flatness lie in [0,1], roll-off is the first bin below which 85% of the magnitude lies, flux is the p-norm of the bin-to-bin change, and mean, rms, std and variance are those of the magnitude spectrum. Centroid, spread, skewness, kurtosis, entropy, flatness and roll-off do not change with the signal's gain.",
 ["inputs", "configurations"], "all spectra over a small alphabet up to a bounded number of bins, all gains; all signals and FFT sizes of the alphabet",
 "the only test checks that there are 12 values and none is None",
 [F("spfeats")], [("spectral_centroid ... spectral_flux, extract_feats", F("spfeats"))])

prop("C26", "Deltas are the linear-slope filter of each row with replicated edges",
 "For every matrix and window w, the delta of element t of a row is sum over k=-h..h of k*x[t+k] with h=floor(w/2) and indices clamped to the row, has the shape of the input, treats every row separately and is linear; constant rows give zero.",
 ["inputs", "configurations"], "all rows over a small alphabet up to a bounded length, all window sizes",
 "the tests evaluate windows 0 and 2 on one 10x2 ramp to one decimal",
 [CEP], [("deltas", CEP)])

prop("C27", "Plots show the data they are given, on the right axes and dB scale",
 "The spectrogram plot shows 10*log10 of the magnitude relative to its maximum, clipped dbf below it, over the requested extent with the first row at the bottom; the feature plot shows the transposed feature matrix; the filter-bank plot draws one curve per filter over the reference frequencies, with upper tick labels being the lower ticks converted to the bank's scale; requested title and axis labels are shown. Plotting never changes the plotted data.",
 ["inputs", "configurations"], "all small matrices over a small alphabet, all dbf and bank types of the alphabet",
 "the tests only call the plot functions",
 [VIS], [("show_spectrogram, show_features, show_fbanks, tick_function", VIS)])

prop("C28", "Every form of the same call gives the same result",
 "For every public function, class and plot, the result depends only on the values the parameters end up with, not on how they are passed: by position in the documented order, by name, in any mixture, or left out. A parameter left out behaves exactly as if its default were spelled out (fs 16000, num_ceps/order 13, pre_emph True but False for plp, rplp and bark_spectrogram, coefficient 0.97, nfilts 24 but 26 for bfcc and psrcc, nfft 512, band 0..fs/2, scale constant, DCT type 2, no energy, liftering, normalisation or predefined bank, gamma -1/7, power 2, 25 ms / 10 ms hamming window, 7 octaves, 24 (cqt function: 12) bins per octave, f0 120, and the other defaults of the signatures). Numbers and flags may be Python or numpy scalars (int32, int64, float64, bool) of equal value.",
 ["inputs", "configurations"], "all positional prefixes of all functions, all sets of left-out parameters up to a bound, all numeric types of all parameters",
 "the tests call each function in one form, nearly always by name, and compare few values",
 ["spafe/features", "spafe/fbanks", "spafe/frequencies", "spafe/utils"], [("all public signatures", "spafe/features, spafe/fbanks, spafe/frequencies, spafe/utils")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
