"""Calls into the real library, by configuration.  Only the public API is used."""
import importlib

import numpy as np

from . import core, ref, util

_PLACE = {
    "mfcc": "features.mfcc", "imfcc": "features.mfcc", "mel_spectrogram": "features.mfcc",
    "lfcc": "features.lfcc", "linear_spectrogram": "features.lfcc",
    "gfcc": "features.gfcc", "erb_spectrogram": "features.gfcc",
    "bfcc": "features.bfcc", "bark_spectrogram": "features.bfcc",
    "ngcc": "features.ngcc", "msrcc": "features.msrcc", "psrcc": "features.psrcc", "pncc": "features.pncc",
    "cqcc": "features.cqcc", "cqt_spectrogram": "features.cqcc",
    "lpc": "features.lpc", "lpcc": "features.lpc", "lpc2lpcc": "features.lpc",
    "plp": "features.rplp", "rplp": "features.rplp",
    "extract_feats": "features.spfeats",
    "get_dominant_frequencies": "frequencies.dominant_frequencies",
    "compute_yin": "frequencies.fundamental_frequencies",
    "compute_constant_qtransform": "utils.spectral",
    "mel_filter_banks": "fbanks.mel_fbanks", "inverse_mel_filter_banks": "fbanks.mel_fbanks",
    "linear_filter_banks": "fbanks.linear_fbanks", "bark_filter_banks": "fbanks.bark_fbanks",
    "gammatone_filter_banks": "fbanks.gammatone_fbanks",
    "framing": "utils.preprocessing", "windowing": "utils.preprocessing", "pre_emphasis": "utils.preprocessing",
    "zero_handling": "utils.preprocessing", "SlidingWindow": "utils.preprocessing",
    "normalize_ceps": "utils.cepstral", "lifter_ceps": "utils.cepstral", "deltas": "utils.cepstral",
    "rasta_filter": "utils.filters", "scale_fbank": "utils.filters",
    "ParameterError": "utils.exceptions",
}


def fn(name):
    return getattr(importlib.import_module("spafe." + _PLACE[name]), name)


BANKFN = {"mel": "mel_filter_banks", "imel": "inverse_mel_filter_banks", "lin": "linear_filter_banks",
          "bark": "bark_filter_banks", "gam": "gammatone_filter_banks"}
SPECFN = {"mel": "mel_spectrogram", "lin": "linear_spectrogram", "bark": "bark_spectrogram", "gam": "erb_spectrogram"}
FBCC = ["mfcc", "imfcc", "lfcc", "gfcc", "bfcc", "ngcc", "msrcc", "psrcc"]
LPCS = ["lpc", "lpcc", "plp", "rplp"]

# ------------------------------------------------------------------------------------------ configurations
DEFAULT = {"fs": 16000, "win": None, "pre_emph": True, "coeff": 0.97, "nfilts": 24, "nfft": 512, "low": 0, "hf": None,
           "scale": "constant", "dct": 2, "energy": False, "lifter": None, "norm": None, "conv": None, "num_ceps": 13,
           "gamma": -1 / 7, "sig": "noise1", "len": [6, 37], "order": 13}


def full(case):
    """Complete a case to a configuration understood by the reference model."""
    c = dict(DEFAULT)
    c.update(case)
    c["high"] = c.get("high_hz") or (None if c["hf"] is None else c["hf"] * c["fs"])
    if 0 <= c["low"] and c["low"] >= (c["high"] or c["fs"] / 2):
        raise core.ModelSkip()     # an empty band
    for k in ("num_ceps", "order"):
        if c[k] == "all":          # as many coefficients as filters
            c[k] = c["nfilts"]
    return c


# many frames: short windows so that thousands of frames stay cheap, and minutes of audio at the default window
MANY = [[65, 3], [129, 0], [257, 3], [513, 0], [1025, 5], [2049, 1], [4097, 0]]
SHORTWIN = [0.002, 0.001, "hamming"]


def many(base=None, **over):
    b = {"fs": 8000, "win": SHORTWIN, "nfft": 64, "nfilts": 13, "order": 5}
    b.update(base or {})
    b.update(over)
    return b


CQT_DEFAULT = {"octaves": 7, "bpo": 24, "thr": 0.005, "f0": 120, "q": 1.0, "ratio": 1.0}
DENSE = {
    "fs": [4000, 4001, 6000, 7350, 7999, 8000, 8001, 9600, 10000, 11025, 11111, 12000, 14400, 15999, 16001, 18900, 20000, 22050, 24000, 25600, 32000, 37800, 44056, 44100, 48000, 50000, 64000, 88200, 96000, 176400, 192000],
    "nfft": list(range(32, 140)) + [159, 160, 199, 200, 239, 240, 255, 256, 257, 300, 320, 399, 400, 401, 480, 511, 513, 600, 640, 777, 800, 960, 1000, 1023, 1024, 1025, 1200, 1536, 1600, 1920, 2047, 2048, 2049, 3000, 4095,
                                    4096, 4097, 8192],
    "nfilts": list(range(1, 81)) + [96, 100, 120, 127, 128, 129, 150, 200, 255, 256],
    "num_ceps": list(range(1, 41)) + ["all"],
    "coeff": [round(0.025 * i, 3) for i in range(41)] + [0.97, 0.99, 0.9375, 0.63, 0.001, 0.9999, 1.1, 2.0, -0.5, -0.97, 0, 1],
    "low": [0, 1, 5, 10, 20, 30, 50, 64, 80, 100, 125, 150, 200, 250, 300, 320, 400, 500, 512.5, 600, 700, 800, 900, 1000, 1200, 1400, 1500],
    "hf": [round(0.2 + 0.0125 * i, 4) for i in range(25)] + [0.499, 0.4999, 0.23, 0.333],
    "lifter": list(range(-41, 42)) + [0.1, 0.25, 0.5, 0.6, 0.9, 1.5, 2.5, 3.25, 5.5, 9.5, 9.99, 10.0, 10.01, 12.5, 22.0, -22.0],
    "order": list(range(1, 33)),
    "gamma": [-2.0, -1.0, -0.75, -0.5, -1 / 3, -0.25, -0.2, -0.1, -0.01, 0.01, 0.1, 1 / 7, 0.2, 0.25, 0.4, 0.6, 0.75, 0.9, 1.0, 1.5, 2.0],
    "power": [0.5, 1, 1.5, 2, 2.5, 3, 4],
    "len": [[f, 0] for f in range(1, 36)] + [[2, -1], [3, -1], [5, 1], [7, 3], [63, 0], [64, 0], [65, 0], [100, 11]],
    "win": [[l, h, t] for l, h in ((0.025, 0.01), (0.032, 0.016), (0.02, 0.02), (0.0123, 0.0041), (0.04, 0.003)) for t in ("hamming", "hanning", "kaiser", "blackman", "bartlet")]
           + [[l, h, "hamming"] for l, h in ((0.005, 0.005), (0.006, 0.001), (0.008, 0.004), (0.01, 0.0025), (0.015, 0.0075), (0.016, 0.01), (0.0255, 0.0105), (0.03, 0.0101), (0.035, 0.005), (0.05, 0.025), (0.064, 0.032),
                                             (0.08, 0.04), (0.1, 0.05), (0.128, 0.1), (0.025, 0.025), (0.0625, 0.0002))],
    "sig": ["noise%d" % i for i in range(1, 13)] + ["int16_noise3", "int16_chirp", "int32_noise4", "f32_voiced", "loud_voiced", "quiet_noise8", "quiet_quiet_noise1", "off_noise6", "burst", "decay", "chirp", "voiced",
                                                     "full16_noise4", "loud_burst", "faint1e-12_noise2"],
    "dct": [1, 2, 3, 4], "norm": [None, "mvn", "ms", "vn", "mn"], "scale": ["constant", "ascendant", "descendant"], "energy": [False, True], "pre_emph": [True, False],
    "octaves": list(range(1, 10)), "bpo": list(range(1, 37)) + [48], "thr": [0.0, 1e-6, 1e-4, 0.001, 0.002, 0.004, 0.005, 0.0054, 0.01, 0.02, 0.05, 0.1, 0.3], "f0": [300, 333.3, 400, 440, 500, 523.25, 600, 750, 1000, 1500, 2000.5],
    "q": [0.25, 0.3, 0.5, 0.75, 0.9, 1.0, 1.1, 1.5, 2.0, 3.0], "ratio": [round(0.1 * i, 1) for i in range(1, 31)] + [3.5, 4, 4.5, 5, 6, 7.5, 8, 10, 16, 0.05, 0.25, 0.33, 0.75, 1.25, 1.0],
}
SWEEP2 = {"sig": "int16_noise2", "fs": 11025, "nfft": 300, "nfilts": 40, "pre_emph": False, "win": [0.0201, 0.0102, "hanning"], "len": [3, 5], "low": 60, "hf": 0.45}


def keys(ex, drop=()):
    """The parameters of an extractor (names of this module) that have dense ranges."""
    k = ["sig", "len", "fs", "win", "pre_emph", "coeff"]
    if ex in ("lpc", "lpcc"):
        k += ["order"]
    else:
        k += ["nfft", "low", "hf"]
    if ex in FBCC or ex in ("pncc", "plp", "rplp") or ex.endswith("_spectrogram") and ex != "cqt_spectrogram":
        k += ["nfilts", "scale"]
    if ex in FBCC or ex in ("pncc", "cqcc"):
        k += ["num_ceps", "dct"]
    if ex in FBCC or ex in ("pncc", "cqcc", "plp", "rplp", "lpcc"):
        k += ["lifter", "norm"]
    if ex in FBCC:
        k += ["energy"]
    if ex in ("plp", "rplp"):
        k += ["order"]
    if ex in ("msrcc", "psrcc"):
        k += ["gamma"]
    if ex == "pncc":
        k += ["power"]
    if ex in ("cqcc", "cqt_spectrogram"):
        k += ["octaves", "bpo", "thr", "f0", "q"]
    if ex == "cqcc":
        k += ["ratio"]
    return [x for x in k if x not in drop]


BARK = ("bfcc", "plp", "rplp", "bark_spectrogram")
CQB = dict(CQT_DEFAULT, nfft=512, f0=490, bpo=12, octaves=3, num_ceps=5)


def cq_fits(c):
    """at least one constant-Q kernel fits into nfft points, and at least one row is left after resampling"""
    if int((c["len"][0] - (c["len"][1] < 0)) * c.get("ratio", 1)) < 1:
        return False
    try:
        return len(ref.cqt_freqs(full(c))[0]) >= 2
    except core.ModelSkip:
        return False


def sweep_ex(ex, base=None, drop=(), valid=None, second=None, tag=""):
    b = {"ex": ex, "len": [4, 9], "num_ceps": 13, "order": 13 if ex in LPCS[:2] else 8}
    if "cq" in ex:
        prev = valid
        valid = lambda c: cq_fits(c) and (prev is None or prev(c))      # noqa: E731
        b.update(CQB)
        second = dict(second or {}, nfft=512, low=0, hf=None)
    b.update(base or {})
    return sweeps(ex + tag, keys(ex, drop), b, ex in BARK, valid, second)


def sweeps(name, keys, base, bark=False, valid=None, second=None, drop=()):
    """Dense one-parameter sweeps over the parameters in `keys` from the default and from a second configuration."""
    d = {k: DENSE[k] for k in keys if k in DENSE and k not in drop}
    if bark:            # pure Python banks
        for k, lim in (("nfft", 700), ("nfilts", 60)):
            if k in d:
                d[k] = [v for v in d[k] if v <= lim]
    b1 = dict(base)
    b2 = dict(base)
    b2.update(SWEEP2)
    b2.update(second or {})
    if bark:
        b1.setdefault("nfft", 128)
        b2["nfft"] = 127
    for b in (b1, b2):
        for k in keys:      # make every swept parameter explicit
            b.setdefault(k, DEFAULT.get(k, CQT_DEFAULT.get(k, 2 if k == "power" else None)))

    def ok(c):
        n = c.get("nfilts", DEFAULT["nfilts"])
        for k in ("num_ceps", "order"):
            if "nfilts" in keys and c.get(k, 1) != "all" and c.get(k, 1) > n and "kind" not in c and not c.get("ex", "").endswith("_spectrogram"):
                return False
        return valid is None or valid(c)
    return core.sweeps("dense sweeps " + name, d, [b1, b2], ok)


def win_of(c):
    return tuple(c["win"] or (0.025, 0.01, "hamming"))


def n_samples(c):
    """len = [F, x]: F full frames plus x extra samples"""
    wl, wh, _ = win_of(c)
    L, H = int(wl * c["fs"]), int(wh * c["fs"])
    F, x = c["len"]
    return L + (F - 1) * H + x


def make_signal(c):
    return util.signal(c["sig"], n_samples(c))


def window_obj(c):
    if "window_object" in c:
        return c["window_object"]
    if c["win"] is None:
        return None
    return fn("SlidingWindow")(*c["win"])


def bank_kwargs(c, kind):
    k = dict(nfilts=c["nfilts"], nfft=c["nfft"], fs=c["fs"], low_freq=c["low"], high_freq=c["high"], scale=c["scale"])
    if c.get("conv") and kind != "lin":
        k["conversion_approach"] = c["conv"]
    return k


def build_bank(kind, c, **over):
    k = bank_kwargs(c, kind)
    k.update(over)
    return fn(BANKFN[kind])(**k)


BANKS = [None, "plus", "rows", "fewer", "holes"]


def supplied(c, kind):
    """A bank to pass as `fbanks` (None: let the extractor build its own).  plus: the model's bank plus a constant, so that the
    DC bin counts; rows/fewer: another number of rows than nfilts; holes: two empty bands."""
    m = c.get("bank")
    if m is None:
        return None
    n = {"rows": c["nfilts"] + 5, "fewer": max(c["num_ceps"], c["nfilts"] - 3)}.get(m, c["nfilts"])
    fb = np.array(ref.bank("lin" if m == "holes" else "gam", n, c["nfft"], c["fs"], 60, 0.45 * c["fs"])[0]) + 0.05
    r = c["nfft"]
    for q in (2, 3, 5, 7):
        while r % q == 0:
            r //= q
    if r > 1:
        fb[:, 0] = 0          # transforms of such lengths need not give an exactly real DC bin
    fb[:, -1] = 0
    if m == "holes":
        fb[2] = 0
        fb[min(5, n - 1)] = 0
    return fb


def call_spec(kind, sig, c, fb=None):
    k = bank_kwargs(c, kind)
    k.update(pre_emph=c["pre_emph"], pre_emph_coeff=c["coeff"], window=window_obj(c))
    if fb is not None:
        k["fbanks"] = fb
    return fn(SPECFN[kind])(sig, **k)


def call(name, sig, c, fb=None):
    """Call an extractor with configuration c."""
    k = dict(fs=c["fs"], pre_emph=c["pre_emph"], pre_emph_coeff=c["coeff"], window=window_obj(c))
    if name in FBCC or name == "pncc":
        k.update(bank_kwargs(c, ref.BANK_OF[name]))
        k.update(num_ceps=c["num_ceps"], dct_type=c["dct"], normalize=c["norm"])
        if c["lifter"] is not None or name != "imfcc":
            k["lifter"] = c["lifter"]
        if name != "pncc":
            k["use_energy"] = c["energy"]
        else:
            k["power"] = c.get("power", 2)
        if name in ("msrcc", "psrcc"):
            k["gamma"] = c["gamma"]
        if fb is not None:
            k["fbanks"] = fb
    elif name in ("plp", "rplp"):
        k.update(bank_kwargs(c, "bark"))
        k.update(order=c["order"], lifter=c["lifter"], normalize=c["norm"])
        if fb is not None:
            k["fbanks"] = fb
    elif name == "lpc":
        k.update(order=c["order"])
    elif name == "lpcc":
        k.update(order=c["order"], lifter=c["lifter"], normalize=c["norm"])
    elif name in ("cqcc", "cqt_spectrogram"):
        k.update(nfft=c["nfft"], low_freq=c["low"], high_freq=c["high"], number_of_octaves=c["octaves"],
                 number_of_bins_per_octave=c["bpo"], spectral_threshold=c["thr"], f0=c["f0"], q_rate=c["q"])
        if name == "cqcc":
            k.update(num_ceps=c["num_ceps"], dct_type=c["dct"], lifter=c["lifter"], normalize=c["norm"],
                     resampling_ratio=c["ratio"])
    else:
        raise KeyError(name)
    return fn(name)(sig, **k)




def preload():
    """Import the library (and what it imports lazily) before workers are forked."""
    for name in sorted(_PLACE):
        importlib.import_module("spafe." + _PLACE[name])
    import scipy.fft, scipy.fftpack, scipy.linalg, scipy.signal, scipy.special, scipy.stats  # noqa: F401,E401
    for s in range(1, 13):
        util.lcg(70000 if s < 4 else 16000, s)
