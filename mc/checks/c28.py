"""Call forms: every public function, called with its arguments by position (every prefix length), by name, left at their default
(every one and every pair of parameters, every positional prefix with the rest left out), and with numpy in place of Python scalars;
every form of a call has to give the result of the fully spelled-out call by name."""
import itertools

import numpy as np

from .. import api, core, ref, util
from ..core import Result
from .c27 import plotting, shown

PID = "C28"
REQ = "<required>"


class _Sig(str):
    """placeholder: a signal / matrix built at run time"""


class _Win(list):
    """placeholder: a SlidingWindow of these three values"""


def W(*a):
    return _Win(a)


SIG = _Sig("sig")
D = {"fs": (16000, 8000, 11025), "num_ceps": (13, 7, 10), "order": (13, 6, 9), "pre_emph": (True, False, True), "pre_emph_coeff": (0.97, 0.5, 0.8), "window": (None, W(0.02, 0.005, "hanning"), W(0.016, 0.016, "kaiser")),
     "nfilts": (24, 15, 18), "nfft": (512, 256, 300), "low_freq": (0, 100, 250.5), "high_freq": (None, 3300, 3100.25), "scale": ("constant", "descendant", "ascendant"), "dct_type": (2, 3, 1), "use_energy": (False, True, True),
     "lifter": (None, 5, -9), "normalize": (None, "mvn", "mn"), "fbanks": (None, _Sig("bank15"), _Sig("bank18")), "gamma": (-1 / 7, 0.25, -0.5), "power": (2, 1, 3),
     "number_of_octaves": (7, 3, 2), "number_of_bins_per_octave": (24, 5, 8), "resampling_ratio": (1.0, 0.5, 2.0), "spectral_threshold": (0.005, 0.01, 0.02), "f0": (120, 640, 700.5), "q_rate": (1.0, 0.5, 0.75)}


def table(*names, **over):
    """[(parameter, default, value in configuration A, value in configuration B)], in the documented order"""
    out = []
    for n in names:
        d, a, b = D.get(n, (None, None, None))
        o = over.get(n)
        if isinstance(o, tuple):
            d, a, b = o
        elif n in over:
            d = o
        out.append((n, d, a, b))
    return out


CEP = ["fs", "num_ceps", "pre_emph", "pre_emph_coeff", "window", "nfilts", "nfft", "low_freq", "high_freq", "scale", "dct_type", "use_energy", "lifter", "normalize", "fbanks"]
SPEC = ["fs", "pre_emph", "pre_emph_coeff", "window", "nfilts", "nfft", "low_freq", "high_freq", "scale", "fbanks"]
CONV = {"mel": ("Oshaghnessy", "Lindsay", "Lindsay"), "erb": ("Glasberg", "Glasberg", "Glasberg"), "bark": ("Wang", "Tjomov", "Terhardt")}
PLP = ["fs", "order", "pre_emph", "pre_emph_coeff", "window", "nfilts", "nfft", "low_freq", "high_freq", "scale", "lifter", "normalize", "fbanks", "conversion_approach"]
SRC = CEP[:10] + ["gamma"] + CEP[10:]
BANK = ["nfilts", "nfft", "fs", "low_freq", "high_freq", "scale"]
CQ1 = ["number_of_octaves", "number_of_bins_per_octave"]
CQ2 = ["spectral_threshold", "f0", "q_rate"]
S1 = [("sig", REQ, SIG, SIG)]

F = {
    "mfcc": S1 + table(*CEP, "conversion_approach", conversion_approach=CONV["mel"]),
    "imfcc": S1 + table(*CEP, "conversion_approach", conversion_approach=CONV["mel"], lifter=0),
    "mel_spectrogram": S1 + table(*SPEC, "conversion_approach", conversion_approach=CONV["mel"]),
    "lfcc": S1 + table(*CEP),
    "linear_spectrogram": S1 + table(*SPEC),
    "gfcc": S1 + table(*CEP, "conversion_approach", conversion_approach=CONV["erb"]),
    "erb_spectrogram": S1 + table(*SPEC, "conversion_approach", conversion_approach=CONV["erb"]),
    "bfcc": S1 + table(*CEP, "conversion_approach", conversion_approach=CONV["bark"], nfilts=26),
    "bark_spectrogram": S1 + table(*SPEC, "conversion_approach", conversion_approach=CONV["bark"], pre_emph=(False, True, True)),
    "ngcc": S1 + table(*CEP, "conversion_approach", conversion_approach=CONV["erb"]),
    "msrcc": S1 + table(*SRC, "conversion_approach", conversion_approach=CONV["mel"]),
    "psrcc": S1 + table(*SRC, "conversion_approach", conversion_approach=CONV["mel"], nfilts=26),
    "pncc": S1 + table("fs", "num_ceps", "pre_emph", "pre_emph_coeff", "power", "window", "nfilts", "nfft", "low_freq", "high_freq", "scale", "dct_type", "lifter", "normalize", "fbanks", "conversion_approach",
                       conversion_approach=CONV["erb"]),
    "cqcc": S1 + table("fs", "num_ceps", "pre_emph", "pre_emph_coeff", "window", "nfft", "low_freq", "high_freq", "dct_type", "lifter", "normalize", *CQ1, "resampling_ratio", *CQ2, nfft=(512, 400, 512)),
    "cqt_spectrogram": S1 + table("fs", "pre_emph", "pre_emph_coeff", "window", "nfft", "low_freq", "high_freq", *CQ1, *CQ2, nfft=(512, 400, 512)),
    "lpc": S1 + table("fs", "order", "pre_emph", "pre_emph_coeff", "window"),
    "lpcc": S1 + table("fs", "order", "pre_emph", "pre_emph_coeff", "window", "lifter", "normalize"),
    "plp": S1 + table(*PLP, conversion_approach=CONV["bark"], pre_emph=(False, True, True)),
    "rplp": S1 + table(*PLP, conversion_approach=CONV["bark"], pre_emph=(False, True, True)),
    "mel_filter_banks": table(*BANK, "conversion_approach", conversion_approach=CONV["mel"]),
    "inverse_mel_filter_banks": table(*BANK, "conversion_approach", conversion_approach=CONV["mel"]),
    "linear_filter_banks": table(*BANK),
    "bark_filter_banks": table(*BANK, "conversion_approach", conversion_approach=CONV["bark"]),
    "gammatone_filter_banks": table(*BANK, "order", "conversion_approach", order=(4, 3, 2), conversion_approach=CONV["erb"]),
    "lpc2lpcc": [("a", REQ, _Sig("a7"), _Sig("a5")), ("e", REQ, 0.25, 3.5), ("nceps", REQ, 9, 4)],
    "extract_feats": S1 + [("fs", REQ, 8000, 11025), ("nfft", 512, 256, 300)],
    "get_dominant_frequencies": S1 + [("fs", REQ, 8000, 11025), ("butter_filter", False, True, True), ("lower_cutoff", 50, 200, 333.5), ("upper_cutoff", 3000, 2500, 1999.5), ("nfft", 512, 256, 1000), ("win_len", 0.025, 0.02, 0.03),
                                      ("win_hop", 0.01, 0.005, 0.03), ("win_type", "hamming", "hanning", "blackman"), ("only_positive", True, False, False)],
    "compute_yin": [("sig", REQ, _Sig("tone"), _Sig("tone")), ("fs", REQ, 8000, 11025), ("win_len", 0.03, 0.025, 0.05), ("win_hop", 0.015, 0.02, 0.025), ("low_freq", 50, 110, 170.5), ("high_freq", 3000, 1500, 999.5), ("harmonic_threshold", 0.1, 0.4, 0.02)],
    "normalize_ceps": [("x", REQ, _Sig("mat"), _Sig("mat")), ("normalization_type", "mvn", "mn", "ms")],
    "lifter_ceps": [("ceps", REQ, _Sig("mat"), _Sig("mat")), ("lift", 3, 5, -7)],
    "deltas": [("x", REQ, _Sig("mat"), _Sig("mat")), ("w", 9, 5, 3)],
    "framing": S1 + [("fs", 16000, 8000, 11025), ("win_len", 0.025, 0.02, 0.03), ("win_hop", 0.01, 0.005, 0.03)],
    "windowing": [("frames", REQ, _Sig("mat40"), _Sig("mat40")), ("frame_len", REQ, 40, 40), ("win_type", "hamming", "hanning", "bartlet")],
    "pre_emphasis": S1 + [("pre_emph_coeff", 0.97, 0.5, 0.8)],
    "zero_handling": [("x", REQ, SIG, SIG)],
    "rasta_filter": [("x", REQ, _Sig("mat"), _Sig("mat40"))],
    "scale_fbank": [("scale", REQ, "descendant", "ascendant"), ("nfilts", REQ, 7, 12)],
    "compute_constant_qtransform": [("frames", REQ, _Sig("mat40"), _Sig("mat40"))] + table("fs", "low_freq", "high_freq", "nfft", "number_of_octaves", "number_of_bins_per_octave", "win_type", "spectral_threshold", "f0", "q_rate",
                                                                                       fs=(16000, 8000, 10000), nfft=(512, 400, 512), number_of_bins_per_octave=12, win_type=("hamming", "hanning", "blackman"), spectral_threshold=0.0054),
    "spectral_centroid": [("fs", REQ, 8000, 11025), ("spectrum", REQ, _Sig("mag"), _Sig("mag")), ("i", 1, 2, 3)],
    "spectral_skewness": S1 + [("fs", REQ, 8000, 11025), ("spectrum", REQ, _Sig("mag"), _Sig("mag"))],
    "spectral_kurtosis": S1 + [("fs", REQ, 8000, 11025), ("spectrum", REQ, _Sig("mag"), _Sig("mag"))],
    "spectral_spread": S1 + [("fs", REQ, 8000, 11025), ("spectrum", REQ, _Sig("mag"), _Sig("mag"))],
    "spectral_entropy": [("spectrum", REQ, _Sig("mag"), _Sig("mag"))],
    "spectral_flatness": [("spectrum", REQ, _Sig("mag"), _Sig("mag"))],
    "spectral_rolloff": [("spectrum", REQ, _Sig("mag"), _Sig("mag")), ("k", 0.85, 0.5, 0.3)],
    "spectral_flux": [("spectrum", REQ, _Sig("mag"), _Sig("mag")), ("p", 2, 1, 3)],
    "medium_time_power_calculation": [("P", REQ, _Sig("mat"), _Sig("mat40")), ("M", 2, 1, 3)],
    "asymmetric_lowpass_filtering": [("Q_tilde_in", REQ, _Sig("pos"), _Sig("pos")), ("lm_a", 0.999, 0.9, 0.75), ("lm_b", 0.5, 0.25, 0.125)],
    "temporal_masking": [("Q_tilde_0", REQ, _Sig("pos"), _Sig("pos")), ("lam_t", 0.85, 0.5, 0.7), ("myu_t", 0.2, 0.3, 0.4)],
    "weight_smoothing": [("R_tilde", REQ, _Sig("pos"), _Sig("pos2")), ("Q_tilde", REQ, _Sig("pos2"), _Sig("pos")), ("nfilts", 128, 13, 20), ("N", 4, 2, 1)],
    "mean_power_normalization": [("T", REQ, _Sig("pos"), _Sig("pos")), ("lam_myu", 0.999, 0.9, 0.5), ("nfilts", 80, 13, 20), ("k", 1, 2, 3)],
    "asymmetric_noise_suppression_with_temporal_masking": [("Q_tilde", REQ, _Sig("pos"), _Sig("pos")), ("threshold", 0, 0.5, 0.25)],
    "hz2erb": [("f", REQ, 440.5, 1234), ("approach", "Glasberg", "Glasberg", "Glasberg")],
    "erb2hz": [("fe", REQ, 10.5, 20), ("approach", "Glasberg", "Glasberg", "Glasberg")],
    "hz2mel": [("f", REQ, 440.5, 1234), ("approach", "Oshaghnessy", "Lindsay", "Lindsay")],
    "mel2hz": [("fm", REQ, 440.5, 1234), ("approach", "Oshaghnessy", "Lindsay", "Lindsay")],
    "hz2bark": [("f", REQ, 440.5, 1234), ("approach", "Wang", "Tjomov", "Traunmueller")],
    "bark2hz": [("fb", REQ, 4.5, 12), ("approach", "Wang", "Tjomov", "Traunmueller")],
    "SlidingWindow": [("win_len", 0.025, 0.02, 0.03), ("win_hop", 0.01, 0.005, 0.03), ("win_type", "hamming", "hanning", "bartlet")],
}
F.update({
    "show_features": [("feats", REQ, _Sig("mat"), _Sig("mat40")), ("title", REQ, "T1", "T2"), ("ylabel", REQ, "Y1", "Y2"), ("xlabel", REQ, "X1", "X2"), ("figsize", (14, 4), (3, 2), (4, 3)), ("cmap", "jet", "viridis", "gray")],
    "show_spectrogram": [("spectrogram", REQ, _Sig("mat"), _Sig("mat40")), ("fs", REQ, 8000, 16000), ("xmin", REQ, 0.5, 0), ("xmax", REQ, 2.5, 3), ("ymin", REQ, 100, 7), ("ymax", REQ, 4000, 900.5), ("dbf", 80.0, 3.0, 10.0),
                         ("xlabel", "Time (s)", "X1", "X2"), ("ylabel", "Frequency (Hz)", "Y1", "Y2"), ("title", "Mel spectrogram (dB)", "T1", "T2"), ("figsize", (14, 4), (3, 2), (4, 3)), ("cmap", "jet", "viridis", "gray"),
                         ("colorbar", True, False, False)],
    "show_fbanks": [("fbanks", REQ, _Sig("tri"), _Sig("tri")), ("center_freqs", REQ, _Sig("cf"), _Sig("cf")), ("ref_freqs", REQ, _Sig("axis"), _Sig("axis")), ("title", "Mel filter banks", "T1", "T2"), ("ylabel", "Weight", "Y1", "Y2"),
                    ("x1label", "Frequency / Hz", "X1", "X2"), ("x2label", "Frequency / mel", "Z1", "Z2"), ("figsize", (12, 5), (3, 2), (4, 3)), ("fb_type", "mel", "bark", "lin"), ("show_center_freqs", True, False, False)],
})
for _n in ("show_features", "show_spectrogram", "show_fbanks"):
    api._PLACE.setdefault(_n, "utils.vis")
for _n in ("spectral_centroid", "spectral_skewness", "spectral_kurtosis", "spectral_spread", "spectral_entropy", "spectral_flatness", "spectral_rolloff", "spectral_flux"):
    api._PLACE.setdefault(_n, "features.spfeats")
for _n in ("medium_time_power_calculation", "asymmetric_lowpass_filtering", "temporal_masking", "weight_smoothing", "mean_power_normalization", "asymmetric_noise_suppression_with_temporal_masking"):
    api._PLACE.setdefault(_n, "features.pncc")
for _n in ("hz2erb", "erb2hz", "hz2mel", "mel2hz", "hz2bark", "bark2hz"):
    api._PLACE.setdefault(_n, "utils.converters")

# what is documented to be the same as leaving the parameter out
ALIAS = {"window": [W(0.025, 0.01, "hamming")], "high_freq": ["fs/2"], "lifter": [None, 0], "pre_emph": [0, 1]}
INT = ("i8", "i4")
REAL = ("low_freq", "high_freq", "f0", "q_rate", "lower_cutoff", "upper_cutoff", "lifter", "lift", "power", "threshold", "f", "fe", "fb", "fm", "p")     # any real number


def optional(f):
    return [p[0] for p in F[f] if not isinstance(p[1], str) or p[1] != REQ]


def spaces(tier):
    q = tier == "quick"
    plotting()          # before the workers are forked
    cases = {"by position": [], "left out": [], "prefix then defaults": [], "numeric types": [], "spelled-out defaults": []}
    for f, tab in F.items():
        for cfg in (1, 2):
            for k in range(len(tab) + 1):
                cases["by position"].append({"f": f, "cfg": cfg, "mode": "pos", "k": k})
            for n in (1, 2) if q else (1, 2, 3):
                for om in itertools.combinations(optional(f), n):
                    cases["left out"].append({"f": f, "cfg": cfg, "mode": "omit", "omit": list(om)})
            for k in range(len(tab) + 1):
                if set(p[0] for p in tab[k:]) <= set(optional(f)):
                    cases["prefix then defaults"].append({"f": f, "cfg": cfg, "mode": "prefix", "k": k})
            for p in tab:
                v = p[1 + cfg]
                if isinstance(v, bool):
                    ts = ("b1", "01")
                elif isinstance(v, int):
                    ts = INT + (("fl", "f8") if p[0] in REAL else ())
                elif isinstance(v, float):
                    ts = ("f8",)
                else:
                    continue
                for t in ts:
                    cases["numeric types"].append({"f": f, "cfg": cfg, "mode": "type", "p": [p[0]], "t": t})
            for t in INT + ("f8",):
                cases["numeric types"].append({"f": f, "cfg": cfg, "mode": "type", "p": None, "t": t})
            for p in tab:
                for i in range(len(ALIAS.get(p[0], ()))):
                    if p[0] in optional(f):
                        cases["spelled-out defaults"].append({"f": f, "cfg": cfg, "mode": "alias", "p": p[0], "i": i})
    return [core.Space(n, c, len(c), f"{len(F)} functions x 2 configurations, " + b) for (n, c), b in zip(cases.items(), (
        "every number of leading arguments by position, the rest by name", f"every set of at most {2 if q else 3} optional parameters left out", "every number of leading arguments by position, the rest left out",
        "every numeric parameter as each of its types, and all at once", "every default that has another documented spelling"))]


def build(v, c, f):
    """a value of the table -> the object passed"""
    if isinstance(v, _Win):
        return api.fn("SlidingWindow")(*v)
    if isinstance(v, _Sig):
        x = util.lcg(3000, 5)
        if v == "sig":
            return x[:2600] * 0.5
        if v == "tone":
            t = np.arange(2600)
            return np.sin(2 * np.pi * t / 37.0) + 0.4 * np.sin(4 * np.pi * t / 37.0) + 0.05 * x[:2600]
        if v.startswith("bank"):
            fb = np.array(ref.bank("lin", c["nfilts"], c["nfft"], c["fs"], 60, 0.45 * c["fs"])[0]) + 0.05
            fb[:, -1] = 0
            if c["nfft"] != 512:
                fb[:, 0] = 0
            return fb
        if v in ("a7", "a5"):
            a = x[:int(v[1])] * 0.4
            a[0] = 1
            return a
        if v == "mat":
            return x[:13 * 20].reshape(20, 13) * 3
        if v == "mat40":
            return x[:40 * 8].reshape(8, 40) * 2
        if v in ("pos", "pos2"):
            o, k = 0 if v == "pos" else 300, c.get("nfilts", 13)
            return np.abs(x[o:o + k * 20].reshape(20, k)) + 0.1
        if v == "tri":
            return np.array(ref.bank("lin", 5, 64, 8000, 100, 3000)[0])
        if v == "cf":
            return 500.0 * np.arange(1, 6)
        if v == "axis":
            return np.linspace(0, 4000, 33)
        if v == "mag":
            return np.abs(x[:257]) + 0.01
    return v


def drawn(plot):
    """a plot function as a function returning what it drew"""
    def wrapped(*a, **k):
        s = shown(lambda: plot(*a, **k))
        try:
            out = []
            for fig in s.figs:
                out.append(np.array(fig.get_size_inches()))
                for ax in fig.axes:
                    out += [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), np.array(ax.get_xlim() + ax.get_ylim(), float), np.array(len(ax.collections))]
                    out += [t.get_text() for t in ax.get_xticklabels()] if len(fig.axes) > 1 and not ax.images else []
                    for im in ax.images:
                        out += [np.ma.filled(im.get_array().astype(float), np.nan), np.array(im.get_extent(), float), im.get_cmap().name]
                    for ln in ax.lines:
                        out += [np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)]
            return tuple(out)
        finally:
            s.close()
    return wrapped


def pack(out, f):
    """the result as a list of arrays"""
    if f.startswith("show_"):
        return list(out)
    if f == "SlidingWindow":
        return [np.asarray([out.win_len, out.win_hop], float), str(out.win_type)]
    if isinstance(out, dict):
        return [np.asarray(out[k]) for k in sorted(out)] + sorted(out)
    if isinstance(out, tuple) or isinstance(out, list) and f == "compute_yin":
        return [np.asarray(o) for o in out]
    return [np.asarray(out)]


def cast(v, t):
    if isinstance(v, bool):
        return np.bool_(v) if t in ("b1", "i8", "i4") else int(v) if t == "01" else v
    if isinstance(v, int):
        return {"i8": np.int64, "i4": np.int32, "fl": float, "f8": np.float64}[t](v)
    if isinstance(v, float):
        return np.float64(v) if t == "f8" else v
    return v


def values(f, cfg, dflt=()):
    """spelled-out arguments of configuration cfg with the parameters in dflt at their default"""
    tab = F[f]
    c = {n: (d if n in dflt else (a, b)[cfg - 1]) for n, d, a, b in tab}
    return c


def fits(f, c):
    """domain: supplied banks must match; num_ceps <= nfilts; band inside [0, fs/2] and wide enough; kernels fit"""
    fs = c.get("fs", 16000)
    if c.get("win_len", 1) < c.get("win_hop", 0):
        return False
    if c.get("fbanks") is not None and not f.startswith("show_") and ("nfft" not in c or "nfilts" not in c):
        return False
    n = c.get("num_ceps", c.get("order", 1) if "nfilts" in c and f != "gammatone_filter_banks" else 1)
    if "nfilts" in c and n > c["nfilts"]:
        return False
    hi = c.get("high_freq")
    if hi is not None and hi > fs / 2:
        return False
    if f in ("cqcc", "cqt_spectrogram", "compute_constant_qtransform"):
        cc = api.full(dict(fs=fs, low=c["low_freq"], hf=None, nfft=c["nfft"], octaves=c["number_of_octaves"], bpo=c["number_of_bins_per_octave"], f0=c["f0"], q=c["q_rate"], thr=c["spectral_threshold"]))
        cc["high"] = hi
        try:
            if len(ref.cqt_freqs(cc)[0]) < 2:
                return False
        except core.ModelSkip:
            return False
        if f == "compute_constant_qtransform":
            return c["nfft"] >= 40
    return True


def run(case):
    f, cfg, mode = case["f"], case["cfg"], case["mode"]
    tab = F[f]
    names = [p[0] for p in tab]
    fun = drawn(api.fn(f)) if f.startswith("show_") else api.fn(f)
    dflt = ()
    if mode == "omit":
        dflt = case["omit"]
    elif mode == "prefix":
        dflt = names[case["k"]:]
    elif mode == "alias":
        dflt = [case["p"]]
    c = values(f, cfg, dflt)
    if "fbanks" in c and cfg == 1 and not f.startswith("show_"):
        c["fbanks"] = None      # configuration A builds its own bank, B is given one
    if not fits(f, c):
        raise core.ModelSkip()
    args = {n: build(c[n], c, f) for n in names}
    with np.errstate(all="ignore"):
        want = pack(fun(**args), f)
        if mode == "pos":
            k = case["k"]
            got = fun(*[args[n] for n in names[:k]], **{n: args[n] for n in names[k:]})
            what = f"{f}: first {k} arguments by position"
        elif mode == "omit":
            got = fun(**{n: args[n] for n in names if n not in dflt})
            what = f"{f}: {', '.join(dflt)} left out"
        elif mode == "prefix":
            got = fun(*[args[n] for n in names[:case["k"]]])
            what = f"{f}: first {case['k']} arguments by position, the rest left out"
        elif mode == "alias":
            n = case["p"]
            v = ALIAS[n][case["i"]]
            if v == "fs/2":
                v = c.get("fs", 16000) / 2
            if n == "pre_emph":
                if bool(v) != bool(c[n]):
                    raise core.ModelSkip()
            if n == "high_freq" and f == "compute_yin":
                raise core.ModelSkip()
            got = fun(**dict(args, **{n: build(v, c, f)}))
            what = f"{f}: {n} given as {v}"
        else:
            ps = case["p"] or names
            got = fun(**{n: cast(args[n], case["t"]) if n in ps and np.ndim(args[n]) == 0 and (n in REAL or case["t"] not in ("f8", "fl") or not isinstance(args[n], int)) else args[n] for n in names})
            what = f"{f}: {', '.join(ps)} as {case['t']}"
    got = pack(got, f)
    probs = []
    if len(got) != len(want):
        probs.append(f"{what}: {len(got)} results instead of {len(want)}")
    for g, w in zip(got, want):
        if isinstance(w, str):
            if g != w:
                probs.append(f"{what}: {g} instead of {w}")
        else:
            probs += util.collect(util.diff(g, w, rtol=1e-8, atol=1e-9 * (1 + np.nanmax(np.abs(w), initial=0)), what=what))
    return Result(probs[:3], util.digest(*[w for w in want if not isinstance(w, str)]), execs=2)
