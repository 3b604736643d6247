"""The public API as operations on explicit, inspectable arguments (for histories and schedules).

An operation is (name, variant); `make(op, seed)` builds its arguments (dict of arrays and a window object) and
`invoke(op, args)` calls the library and returns the list of result arrays.
"""
import copy
import importlib

import numpy as np

from . import api, ref, util

TINY = {"fs": 8000, "nfft": 32, "nfilts": 4, "num_ceps": 3, "order": 3, "win": [0.004, 0.002, "hamming"], "len": [3, 1]}
SPECS = {"mel_spectrogram": "mel", "linear_spectrogram": "lin", "bark_spectrogram": "bark", "erb_spectrogram": "gam"}
BANKS = {v: k for k, v in api.BANKFN.items()}

COMMON = [{}, {"fs": 11025}, {"nfft": 33}, {"nfft": 64}, {"win": None}, {"win": [0.004, 0.004, "hamming"]}, {"win": [0.004, 0.002, "kaiser"]}, {"pre_emph": False}, {"coeff": 0.5},
          {"sigdtype": "int16"}]
BANKV = [{"nfilts": 5}, {"low": 300}, {"hf": 0.3}, {"scale": "ascendant"}, {"scale": "descendant"}]
CEPV = [{"num_ceps": 2}, {"dct": 3}, {"dct": 4}, {"lifter": 3}, {"lifter": -7}, {"lifter": 22}, {"norm": "mvn"}, {"norm": "ms"}, {"norm": "mn"}, {"norm": "vn"}]
FB = [{"fbank": 1}, {"fbank": 1, "scale": "ascendant"}]


def variants(name):
    if name in BANKS:
        v = [{}, {"nfilts": 5}, {"nfft": 33}, {"nfft": 64}, {"fs": 11025}, {"low": 300}, {"hf": 0.3}, {"scale": "ascendant"}, {"scale": "descendant"}, {"hf": 0.5}]
        if BANKS[name] in ("mel", "imel"):
            v.append({"conv": "Lindsay"})
        if BANKS[name] == "bark":
            v += [{"conv": "Tjomov"}, {"conv": "Terhardt"}, {"conv": "Traunmueller"}]
        return v
    if name in SPECS:
        return COMMON + BANKV + FB
    if name in api.FBCC:
        v = COMMON + BANKV + CEPV + FB + [{"energy": True}]
        if name in ("msrcc", "psrcc"):
            v = v + [{"gamma": 0.5}]
        if name in ("mfcc", "imfcc"):
            v = v + [{"conv": "Lindsay"}]
        return v
    if name == "pncc":
        return COMMON + BANKV + CEPV + FB + [{"power": 1}]
    if name in ("plp", "rplp"):
        return COMMON + BANKV + FB + [{"order": 2}, {"lifter": 3}, {"norm": "mvn"}]
    if name == "lpc":
        return [c for c in COMMON if "nfft" not in c] + [{"order": 2}, {"order": 4}]
    if name == "lpcc":
        return [c for c in COMMON if "nfft" not in c] + [{"order": 2}, {"lifter": 3}, {"norm": "mvn"}]
    if name in ("cqcc", "cqt_spectrogram"):
        v = [{}, {"nfft": 80}, {"fs": 11025}, {"win": [0.004, 0.004, "hanning"]}, {"pre_emph": False}, {"coeff": 0.5}, {"hf": 0.3}, {"low": 1200}, {"f0": 1100}, {"thr": 0.05}, {"bpo": 6},
             {"octaves": 1}, {"q": 0.5}]
        if name == "cqcc":
            v += [{"num_ceps": 2}, {"dct": 3}, {"lifter": 3}, {"norm": "mvn"}, {"ratio": 2.0}]
        return v
    return {
        "framing": [{}, {"win": [0.004, 0.004, "hamming"]}, {"fs": 11025}, {"sigdtype": "int16"}],
        "pre_emphasis": [{}, {"coeff": 0.5}, {"sigdtype": "int16"}, {"coeff": 0.0}],
        "windowing": [{"wt": w} for w in ("hamming", "hanning", "kaiser", "blackman", "bartlet")],
        "zero_handling": [{}, {"mat": "zeros"}],
        "normalize_ceps": [{"norm": n} for n in ("mvn", "ms", "vn", "mn")],
        "lifter_ceps": [{"lifter": l} for l in (3, 0.7, -7, 0, 22)],
        "deltas": [{"w": w} for w in (9, 3, 0, 2)],
        "rasta_filter": [{}, {"mat": "zeros"}],
        "lpc2lpcc": [{"n": 5}, {"n": 3}, {"n": 9}],
        "extract_feats": [{}, {"nfft": 33}, {"fs": 11025}, {"sigdtype": "int16"}],
        "get_dominant_frequencies": [{}, {"butter": 1}, {"butter": 1, "cut": 900}, {"nfft": 33}, {"fs": 11025}],
        "compute_yin": [{}, {"thr": 0.8}, {"lohi": [400, 2000]}, {"fs": 11025}],
        "medium_time_power_calculation": [{}], "asymmetric_lowpass_filtering": [{}], "temporal_masking": [{}], "weight_smoothing": [{}], "mean_power_normalization": [{}],
        "asymmetric_noise_suppression_with_temporal_masking": [{}],
        "compute_difference": [{}, {"tau": 7}], "compute_cmnd": [{}], "get_pitch": [{}, {"thr": 0.9}],
        "spectral_centroid": [{}], "spectral_skewness": [{}], "spectral_kurtosis": [{}], "spectral_entropy": [{}], "spectral_spread": [{}], "spectral_flatness": [{}],
        "spectral_rolloff": [{}, {"k": 0.5}], "spectral_flux": [{}, {"p": 1}],
        "compute_constant_qtransform": [{}, {"bpo": 3}, {"wt": "kaiser"}, {"thr": 0.05}], "scale_fbank": [{"scale": a, "nfilts": b} for a in ("constant", "ascendant", "descendant") for b in (4, 5)],
        "generate_center_frequencies": [{}, {"lo": 100}], "stride_trick": [{}, {"h": 7}], "intensity_power_law": [{}], "tick_function": [{"fb": f} for f in ("mel", "bark", "gamma", "lin")],
        "hz2mel": [{}, {"ap": "Lindsay"}], "mel2hz": [{}, {"ap": "Lindsay"}], "hz2bark": [{"ap": a} for a in ("Wang", "Tjomov", "Schroeder", "Terhardt", "Traunmueller")],
        "bark2hz": [{"ap": a} for a in ("Wang", "Tjomov", "Schroeder", "Terhardt")], "hz2erb": [{}], "erb2hz": [{}],
    }[name]


def near(name):
    """Configurations that differ only slightly from each other (for keys that round or drop a parameter)."""
    if name in BANKS:
        return [{"low": 300.4}, {"low": 301}, {"hf": 0.30004}, {"fs": 8001}, {"low": 300.0003}, {"hf": 0.3000001}]
    sig = [{"fs": 8001}, {"coeff": 0.9701}, {"coeff": 0.504}, {"win": [0.00413, 0.002, "hamming"]}, {"win": [0.004, 0.00213, "hamming"]}, {"coeff": 0.5000001}]
    bank = [{"low": 300.4}, {"low": 301}, {"hf": 0.30004}, {"low": 300.0003}, {"hf": 0.3000001}]
    if name in SPECS:
        return sig + bank
    if name in api.FBCC:
        return sig + bank + [{"lifter": 3.25}] + ([{"gamma": 0.5004}, {"gamma": 0.5000001}] if name in ("msrcc", "psrcc") else [])
    if name == "pncc":
        return sig + bank + [{"power": 2.004}, {"power": 2.0000001}]
    if name in ("plp", "rplp"):
        return sig + bank + [{"lifter": 3.25}]
    if name in ("lpc", "lpcc"):
        return sig
    if name in ("cqcc", "cqt_spectrogram"):
        return sig[:3] + [{"f0": 1000.4}, {"f0": 1000.0002}, {"thr": 0.0504}, {"q": 0.504}, {"hf": 0.30004}]
    return {"pre_emphasis": [{"coeff": 0.504}, {"coeff": 0.9701}], "lifter_ceps": [{"lifter": 3.25}], "compute_yin": [{"thr": 0.8004}, {"lohi": [400.4, 2000]}, {"fs": 8001}],
            "get_dominant_frequencies": [{"butter": 1, "cut": 900.4}], "spectral_rolloff": [{"k": 0.504}], "spectral_flux": [{"p": 1.004}], "compute_constant_qtransform": [{"thr": 0.0504}],
            "generate_center_frequencies": [{"lo": 100.4}], "get_pitch": [{"thr": 0.9004}]}.get(name, [])


PERTURB = ["first", "middle", "last", "swap", "reverse", "negate", "rotate"]


def perturb(args, kind):
    out = {}
    for k, v in args.items():
        if isinstance(v, np.ndarray) and v.size > 1:
            v = v.copy()
            f = v.reshape(-1)
            i = {"first": 0, "middle": v.size // 2, "last": v.size - 1}.get(kind)
            if i is not None:
                f[i] = f[i] * 1.01 + (1 if v.dtype.kind == "i" else 0.001)
            elif kind == "swap":
                f[[1, v.size // 2]] = f[[v.size // 2, 1]]
            elif kind == "reverse":
                f[...] = f[::-1].copy()
            elif kind == "negate":
                f[...] = -f
            else:
                f[...] = np.roll(f, 3)
        out[k] = v
    return out


PNCC_ST = ["medium_time_power_calculation", "asymmetric_lowpass_filtering", "temporal_masking", "weight_smoothing", "mean_power_normalization",
           "asymmetric_noise_suppression_with_temporal_masking"]
CONV = ["hz2mel", "mel2hz", "hz2bark", "bark2hz", "hz2erb", "erb2hz"]
EXTRA = {"compute_difference": "frequencies.fundamental_frequencies", "compute_cmnd": "frequencies.fundamental_frequencies", "get_pitch": "frequencies.fundamental_frequencies",
         "compute_constant_qtransform": "utils.spectral", "scale_fbank": "utils.filters", "generate_center_frequencies": "fbanks.gammatone_fbanks", "stride_trick": "utils.preprocessing",
         "intensity_power_law": "features.bfcc", "tick_function": "utils.vis"}
EXTRA.update({"spectral_" + n: "features.spfeats" for n in ("centroid", "skewness", "kurtosis", "entropy", "spread", "flatness", "rolloff", "flux")})
NAMES = list(api.BANKFN.values()) + list(SPECS) + api.FBCC + ["pncc", "cqcc", "cqt_spectrogram", "lpc", "lpcc", "plp", "rplp", "framing", "pre_emphasis", "windowing", "zero_handling",
                                                              "normalize_ceps", "lifter_ceps", "deltas", "rasta_filter", "lpc2lpcc", "extract_feats", "get_dominant_frequencies",
                                                              "compute_yin"] + PNCC_ST + CONV + list(EXTRA)


def cfg(op):
    name, v = op
    c = dict(TINY)
    if "cq" in name:
        c.update(api.CQT_DEFAULT, nfft=64, f0=1000, bpo=4, octaves=2)
    if "order" in v and v["order"] == 4:
        c["nfilts"] = 5
    c.update(v)
    if c["win"] is None:
        c["len"] = [2, 3]
    return api.full(c)


def has(name):
    try:
        _fn(name)
        return True
    except (ImportError, AttributeError):
        return False


def _fn(name):
    if name in EXTRA:
        return getattr(importlib.import_module("spafe." + EXTRA[name]), name)
    if name in PNCC_ST:
        return getattr(importlib.import_module("spafe.features.pncc"), name)
    if name in CONV:
        return getattr(importlib.import_module("spafe.utils.converters"), name)
    return api.fn(name)


def make(op, seed=1):
    name, v = op
    c = cfg(op)
    args = {}
    if name in BANKS:
        return args
    if name in CONV:
        args["f"] = np.abs(util.lcg(5, seed)) * (3000 if name.startswith("hz2") else 20) + 10
        return args
    if name in EXTRA:
        if name in ("compute_difference", "stride_trick"):
            args["x"] = util.lcg(40, seed).copy()
        elif name in ("compute_cmnd", "get_pitch"):
            args["x"] = np.abs(util.lcg(12, seed)) + 0.05
        elif name.startswith("spectral_"):
            args["x"] = (util.lcg(16, seed) + 1j * util.lcg(16, seed + 1)).copy()
            args["sig"] = util.lcg(16, seed + 2).copy()
        elif name == "compute_constant_qtransform":
            args["x"] = util.lcg(3 * 40, seed).reshape(3, 40).copy()
        elif name == "intensity_power_law":
            args["x"] = np.abs(util.lcg(12, seed)).reshape(3, 4) * 1e4
        elif name == "tick_function":
            args["x"] = np.abs(util.lcg(6, seed)) * 4000
        return args
    if name in PNCC_ST:
        args["x"] = np.abs(util.lcg(5 * 4, seed)).reshape(5, 4) * 3 + 0.1
        if name == "weight_smoothing":
            args["y"] = np.abs(util.lcg(5 * 4, seed + 3)).reshape(5, 4) + 0.2
        return args
    if name == "windowing":
        args["x"] = util.lcg(4 * 9, seed).reshape(4, 9).copy()
        return args
    if name in ("zero_handling", "normalize_ceps", "lifter_ceps", "deltas", "rasta_filter"):
        x = util.lcg(4 * 9, seed).reshape(4, 9).copy()
        x[1, 2] = 0
        if v.get("mat") == "zeros":
            x[2:] = 0
        args["x"] = x
        return args
    if name == "lpc2lpcc":
        args["a"] = np.r_[1.0, util.lcg(4, seed) * 0.3]
        args["e"] = np.array(0.3 + 0.1 * seed)
        return args
    n = 700 if name == "compute_yin" else api.n_samples(c)
    if name == "get_dominant_frequencies":
        n = 200
    x = util.lcg(n, seed + 1).copy()
    if v.get("sigdtype") == "int16":
        x = np.round(x * 2000).astype(np.int16)
    args["sig"] = x
    if name not in ("pre_emphasis", "framing", "extract_feats", "get_dominant_frequencies", "compute_yin"):
        args["window"] = api.window_obj(c)
    if v.get("fbank"):
        args["fb"] = np.abs(util.lcg(c["nfilts"] * (c["nfft"] // 2 + 1), seed + 5)).reshape(c["nfilts"], -1) + 0.1
    return args


def invoke(op, args):
    name, v = op
    c = cfg(op)
    f = _fn(name)
    if name in BANKS:
        r = f(**api.bank_kwargs(c, BANKS[name]))
        return [np.asarray(r[0]), np.asarray(r[1])]
    if name in CONV:
        k = {"approach": v["ap"]} if "ap" in v else {}
        return [np.array([float(f(float(x), **k)) for x in args["f"]])]
    if name in EXTRA:
        x = args.get("x")
        if name == "compute_difference":
            return [f(x, v.get("tau", 12))]
        if name == "stride_trick":
            return [f(x, 9, v.get("h", 4))]
        if name == "compute_cmnd":
            return [f(x, len(x))]
        if name == "get_pitch":
            return [np.array(float(f(x, 1, len(x), v.get("thr", 0.1))))]
        if name == "spectral_centroid":
            return [np.array(float(f(8000, x)))]
        if name in ("spectral_skewness", "spectral_kurtosis", "spectral_spread"):
            return [np.array(float(f(args["sig"], 8000, x)))]
        if name == "spectral_rolloff":
            return [np.array(float(f(x, v.get("k", 0.85))))]
        if name == "spectral_flux":
            return [np.array(float(f(x, v.get("p", 2))))]
        if name in ("spectral_entropy", "spectral_flatness"):
            return [np.array(float(f(x)))]
        if name == "compute_constant_qtransform":
            return [f(x, fs=8000, nfft=64, number_of_octaves=2, number_of_bins_per_octave=v.get("bpo", 4), win_type=v.get("wt", "hamming"), spectral_threshold=v.get("thr", 0.005), f0=1000)]
        if name == "scale_fbank":
            return [f(v["scale"], v["nfilts"])]
        if name == "generate_center_frequencies":
            return [f(v.get("lo", 50), 3900, 5)]
        if name == "tick_function":
            return [np.array([float(t) for t in f(x, v["fb"])])]
        return [f(x)]
    if name in PNCC_ST:
        if name == "weight_smoothing":
            return [f(args["x"], args["y"], nfilts=4)]
        if name == "mean_power_normalization":
            return [f(args["x"], nfilts=4)]
        return [f(args["x"])]
    if name == "windowing":
        return [f(args["x"], 9, v["wt"])]
    if name == "zero_handling":
        return [f(args["x"])]
    if name == "normalize_ceps":
        return [f(args["x"], v["norm"])]
    if name == "lifter_ceps":
        return [f(args["x"], v["lifter"])]
    if name == "deltas":
        return [f(args["x"], v["w"])]
    if name == "rasta_filter":
        return [f(args["x"])]
    if name == "lpc2lpcc":
        return [np.array([float(z) for z in f(args["a"], args["e"], v["n"])])]
    wl, wh, wt = api.win_of(c)
    sig = args["sig"]
    if name == "pre_emphasis":
        return [np.asarray(f(sig, c["coeff"]))]
    if name == "framing":
        return [np.asarray(f(sig, c["fs"], wl, wh)[0])]
    if name == "extract_feats":
        r = f(sig, c["fs"], nfft=c["nfft"])
        return [np.array([float(r[k]) for k in sorted(r)])]
    if name == "get_dominant_frequencies":
        return [np.asarray(f(sig, c["fs"], butter_filter=bool(v.get("butter")), lower_cutoff=v.get("cut", 500), upper_cutoff=3000, nfft=c["nfft"], win_len=wl, win_hop=wh))]
    if name == "compute_yin":
        lo, hi = v.get("lohi", [300, 3000])
        r = f(sig, c["fs"], win_len=0.03, win_hop=0.015, low_freq=lo, high_freq=hi, harmonic_threshold=v.get("thr", 0.1))
        return [np.asarray(a) for a in r]
    w = args.get("window")
    if name in SPECS:
        k = api.bank_kwargs(c, SPECS[name])
        k.update(pre_emph=c["pre_emph"], pre_emph_coeff=c["coeff"], window=w)
        if "fb" in args:
            k["fbanks"] = args["fb"]
        return [np.asarray(a) for a in f(sig, **k)]
    r = call_with_window(name, sig, c, args)
    return [np.asarray(a) for a in r] if name == "lpc" else [np.asarray(r)]


def call_with_window(name, sig, c, args):
    c = dict(c)
    c["window_object"] = args.get("window")
    return api.call(name, sig, c, args.get("fb"))


FLAVOURS = ["gap", "zero", "negzero", "neg", "f32", "int", "big", "tiny", "F", "ints"]


def flavour(args, fl):
    """The same arguments with special contents or representation (arguments must stay untouched whatever they hold)."""
    out = {}
    for k, v in args.items():
        if isinstance(v, np.ndarray) and v.size > 1:
            if fl == "gap":
                v = v.copy()
                v.reshape(-1)[v.size // 3: 2 * v.size // 3] = 0
                v.reshape(-1)[-1] = 0
            elif fl == "zero":
                v = np.zeros_like(v)
            elif fl == "negzero":
                v = v.astype(v.dtype if v.dtype.kind in "fc" else float)
                v[...] = -0.0
            elif fl == "neg":
                v = -v
            elif fl == "f32":
                v = v.astype(np.complex64 if v.dtype.kind == "c" else np.float32)
            elif fl == "int":
                v = v if v.dtype.kind == "c" else np.round(v * 100).astype(np.int32)
            elif fl == "ints":
                v = v if v.dtype.kind == "c" else np.round(v * 3).astype(np.float64)
            elif fl == "big":
                v = v.astype(v.dtype if v.dtype.kind == "c" else np.float64) * 1e8
            elif fl == "tiny":
                v = v.astype(v.dtype if v.dtype.kind == "c" else np.float64) * 1e-20
            elif fl == "F":
                v = np.asfortranarray(v) if v.ndim > 1 else np.repeat(v, 2)[::2]
        out[k] = v
    return out


def wkey(w):
    return None if w is None else (w.win_len, w.win_hop, w.win_type)


# calls that the library must reject (they may leave nothing behind)
def rejected(i):
    PE = Exception
    tries = [
        lambda: _fn("mel_filter_banks")(nfilts=4, nfft=32, fs=8000, low_freq=-5),
        lambda: _fn("bark_filter_banks")(nfilts=4, nfft=32, fs=8000, high_freq=5000),
        lambda: _fn("mfcc")(np.ones(100), fs=8000, num_ceps=9, nfilts=4, nfft=32),
        lambda: _fn("gfcc")(np.ones(100), fs=8000, num_ceps=3, nfilts=4, nfft=32, high_freq=9000),
        lambda: _fn("framing")(np.ones(100), fs=8000, win_len=0.001, win_hop=0.002),
        lambda: _fn("plp")(np.ones(100), fs=8000, order=9, nfilts=4, nfft=32),
        lambda: _fn("pncc")(np.ones(100), fs=8000, num_ceps=9, nfilts=4, nfft=32),
        lambda: _fn("lfcc")(np.ones(100), fs=8000, num_ceps=3, nfilts=4, nfft=32, window=_fn("SlidingWindow")(0.001, 0.002, "hamming")),
    ]
    try:
        tries[i % len(tries)]()
    except PE:
        return True
    return False


N_REJECT = 8
