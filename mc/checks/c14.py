"""Degenerate audio: every extractor, spectrogram, descriptor and pitch function on every degenerate signal of the alphabet
in every configuration within the deviation bound, and on all words of frame types; results finite and of the right shape."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip
from .c08 import FS, WINS

PID = "C14"
SPECS = {"mel_spectrogram": "mel", "linear_spectrogram": "lin", "bark_spectrogram": "bark", "erb_spectrogram": "gam"}
EXT = api.FBCC + ["pncc", "lpc", "lpcc", "plp", "rplp", "cqcc", "cqt_spectrogram"] + list(SPECS)
SIGS = ["zeros", "ones", "dc16", "nyq", "nyq16", "impulse", "impulse_end", "lsb", "square", "gap", "lead", "trail", "full16_noise4", "int16_zeros",
        "f32_zeros", "int16_impulse", "quiet_quiet_noise1", "loud_nyq", "int32_ones", "off_zeros", "int16_gap", "loud_impulse", "f32_square", "negzeros", "int8_full", "uramp",
        "ramp", "saw", "gap_short", "tail_one", "faint1e-30_noise1", "faint1e-100_voiced"]
LET = "sncinqlz"


def spaces(tier):
    q = tier == "quick"
    out = []
    for ex in EXT:
        bark = ex in ("bfcc", "plp", "rplp", "bark_spectrogram")
        p = {"sig": SIGS, "fs": [16000, 8000, 11025, 44100], "nfft": [512, 256, 511, 64] if not bark else [128, 255, 64], "nfilts": [20, 13, 40, 26], "low": [0, 300],
             "hf": [None, 0.4, 0.25], "scale": ["constant", "descendant"], "pre_emph": [True, False], "coeff": [0.97, 1.0, 0.0], "win": WINS[:5], "len": [[3, 9], [1, 0], [12, 1]],
             "num_ceps": [13, 1], "dct": [2, 1, 3, 4], "energy": [False, True], "lifter": [None, 3, -7], "order": [13, 2, 1]}
        base = {"ex": ex}
        if ex in ("msrcc", "psrcc"):
            p["gamma"] = [-1 / 7, 0.5, -1.0]
        if ex in ("lpc", "lpcc", "cqcc", "cqt_spectrogram"):
            for k in ("nfilts", "scale", "energy"):
                p.pop(k)
        if ex in ("lpc", "lpcc", "plp", "rplp"):
            for k in ("num_ceps", "dct", "nfft", "low", "hf") if ex in ("lpc", "lpcc") else ("num_ceps", "dct"):
                p.pop(k)
        else:
            p.pop("order")
        if ex == "lpc" or ex in SPECS or ex == "cqt_spectrogram":
            for k in ("lifter", "dct", "energy", "num_ceps"):
                p.pop(k, None)
        if ex in ("cqcc", "cqt_spectrogram"):
            base.update(api.CQT_DEFAULT, f0=480, bpo=12, octaves=4)
            p["nfft"] = [512, 256]
            p["fs"] = [16000, 8000]
            p["thr"] = [0.005, 0.5, 0.0]
        if ex in ("pncc", "plp", "rplp", "lpcc"):
            p.pop("energy", None)
        if ex in api.FBCC or ex in SPECS or ex in ("pncc", "plp", "rplp"):
            p["bank"] = [None, "plus", "holes"]
        if ex == "pncc":
            p["power"] = [2, 1]
        p3 = {k: v[:2] for k, v in p.items()}
        p3["sig"] = ["zeros", "ones", "nyq16", "impulse", "lsb", "square", "gap", "lead", "trail", "full16_noise4", "negzeros", "tail_one"]
        p3["len"] = [[3, 9], [1, 0]]
        for k, v in {"nfft": [128, 255] if not bark else [64, 63], "nfilts": [16, 13, 26], "dct": [2, 1, 3, 4], "num_ceps": [13, 1, "all"], "lifter": [None, 3, -7], "gamma": p.get("gamma"), "order": [8, 1, 13]}.items():
            if k in p:
                p3[k] = v
        if "cq" in ex:
            p3.update(nfft=[256, 300], fs=[8000, 16000])
        for sg in ("zeros", "gap", "full16_noise4", "impulse"):
            out.append(api.sweep_ex(ex, dict(base, sig=sg, len=[3, 9]), drop=("norm", "sig"), second={"sig": sg}, tag=" " + sg))
        if not (q and "cq" in ex):
            out.append(core.lattice(ex + ", three deviations", p3, 3, base=base))
        out.append(core.lattice(ex, p, 2 if q and ex not in ("cqcc", "cqt_spectrogram") else 1 if q else 3 if not bark else 2, base=base))
        b = dict(base)
        b.update(mode="word", fs=8000, win=[0.008, 0.008, "hamming"], nfft=64 if "cq" not in ex else 256, nfilts=13, order=8)
        if "cq" in ex:
            b.update(f0=900, octaves=2)
        out.append(core.product("many frames " + ex, {"len": [[129, 0], [1025, 5], [4097, 0]], "sig": ["zeros", "gap", "lead", "trail", "full16_noise4", "lsb"]},
                                base=api.many(base) if "cq" not in ex else api.many(base, f0=1600, octaves=2)))
        fs_ = ["1e-10", "1e-40", "1e-100"] + (["1e-154", "1e-160", "1e-200", "1e-310"] if ex.startswith("lpc") else [])
        out.append(core.product("faint signals " + ex, {"sig": [f"faint{e}_{s}" for e in fs_ for s in ("noise1", "voiced", "square", "impulse", "nyq", "gap")], "pre_emph": [True, False], "energy": [False, True],
                                                        "nfft": [128, 64] if "cq" not in ex else [512]}, base=base))
        w = core.tree("frame words " + ex, sorted(set(LET)), 3 if q else 5, "words", base=b, minlen=1, chunk=32)
        for cs in w.states:
            cs["pre_emph"] = True
        out.append(w)
    out.append(core.product("descriptors", {"sig": SIGS, "n": [512, 100, 600, 2, 1, 513], "nfft": [512, 2, 3, 8, 511, 1024], "fs": [16000, 44100]}, base={"ex": "spfeats"}))
    out.append(core.product("dominant", {"sig": SIGS, "nfft": [512, 511, 2], "fs": [16000, 8000], "butter": [0, 1], "len": [[3, 9], [1, 0]]}, base={"ex": "dominant"}))
    out.append(core.product("yin", {"sig": SIGS, "fs": [8000, 16000], "lohi": [[50, 3000], [100, 1000], [200, 400]], "thr": [0.1, 0.8], "n": [1800, 600, 241]}, base={"ex": "yin"}))
    return out


def sig_of(name, n):
    t = np.arange(n)
    if name == "negzeros":
        return -np.zeros(n)
    if name == "int8_full":
        return np.where(t % 3 == 0, -128, 127).astype(np.int8)
    if name == "uramp":
        return np.arange(n) % 256.0
    if name == "ramp":
        return t.astype(float)
    if name == "saw":
        return ((t % 37) - 18).astype(np.int16)
    if name == "gap_short":
        x = util.lcg(n, 2).copy()
        x[n // 2:] = 0
        x[-1] = 1e-30
        return x
    if name == "tail_one":
        x = np.zeros(n)
        x[0] = x[-1] = 1.0
        return x
    return util.signal(name, n)


def letter(ch, n):
    if ch == "n":
        return util.lcg(n, 4) * 0.8
    if ch == "s":
        return np.zeros(n)
    if ch == "z":
        return -np.zeros(n)
    if ch == "l":
        return util.lcg(n, 6) * 3e4
    if ch == "i":
        x = np.zeros(n)
        x[n // 3] = 1.0
        return x
    if ch == "q":
        return np.where(np.arange(n) % 2 == 0, 1.0, -1.0)
    return np.full(n, 0.25)


def finite(x, what, shape=None):
    a = np.asarray(x)
    if shape is not None and a.shape != shape:
        return f"{what}: shape {a.shape}, expected {shape}"
    if a.dtype == object:
        return f"{what}: object array"
    if not np.isfinite(a).all():
        i = tuple(int(v) for v in np.argwhere(~np.isfinite(a))[0]) if a.ndim else ()
        return f"{what}: {a[i]} at {i}"
    return None


def extract(ex, sig, c, what):
    wl, wh, _ = api.win_of(c)
    L, H = int(wl * c["fs"]), int(wh * c["fs"])
    n = (len(sig) - L) // H + 1
    if ex in SPECS:
        a, b = api.call_spec(SPECS[ex], sig, c, api.supplied(c, None))
        return [finite(a, what, (n, c["nfilts"])), finite(b, what + " spectrum", (n, c["nfft"] // 2 + 1))]
    r = api.call(ex, sig, c, api.supplied(c, None))
    if ex == "lpc":
        return [finite(r[0], what, (n, c["order"])), finite(np.asarray(r[1]).reshape(-1), what + " error", (n,))]
    if ex in ("lpcc", "plp", "rplp"):
        return [finite(r, what, (n, c["order"]))]
    if ex in ("cqcc", "cqt_spectrogram"):
        return [finite(r, what)]
    return [finite(r, what, (n, c["num_ceps"]))]


def run(case):
    ex = case["ex"]
    probs = []
    if ex == "spfeats":
        f = api.fn("extract_feats")(sig_of(case["sig"], case["n"]), case["fs"], nfft=case["nfft"])
        for k in sorted(f):
            probs.append(finite(f[k], k))
            if np.ndim(f[k]) != 0:
                probs.append(f"{k} is not a scalar")
        return Result(util.collect(*probs)[:4], (case["sig"], len(f)))
    if ex == "yin":
        sig = sig_of(case["sig"], case["n"])
        r = api.fn("compute_yin")(sig, case["fs"], low_freq=case["lohi"][0], high_freq=case["lohi"][1], harmonic_threshold=case["thr"])
        constant = np.std(np.asarray(sig, float)) == 0
        for nm, a in zip(("pitches", "harmonic rates", "argmins", "times"), r):
            if nm == "harmonic rates" and constant and sig[0] != 0:
                continue        # 0/0 to rounding: a constant has every period
            probs.append(finite(a, nm))
        return Result(util.collect(*probs), (case["sig"], len(r[0])))
    c = api.full(case)
    if ex not in SPECS and ex not in ("lpc", "lpcc", "cqcc", "cqt_spectrogram", "dominant") and \
            (c["order"] if ex in ("plp", "rplp") else c["num_ceps"]) > c["nfilts"]:
        raise ModelSkip()
    if case.get("mode") == "word":
        n = int(c["win"][0] * c["fs"])
        ex_n = 0
        for w in case["words"]:
            sig = np.concatenate([letter(ch, n) for ch in w])
            for pe in (True, False):
                probs += extract(ex, sig, dict(c, pre_emph=pe), "word " + "".join(w))
                ex_n += 1
        return Result(util.collect(*probs)[:4], (ex, len(case["words"])), validated=ex_n, execs=ex_n)
    sig = sig_of(case["sig"], api.n_samples(c))
    if ex == "dominant":
        wl, wh, wt = api.win_of(c)
        r = api.fn("get_dominant_frequencies")(sig, c["fs"], butter_filter=bool(case["butter"]), nfft=c["nfft"], lower_cutoff=100, upper_cutoff=3000)
        L, H = int(wl * c["fs"]), int(wh * c["fs"])
        return Result(util.collect(finite(r, "dominant", ((len(sig) - L) // H + 1,))), case["sig"])
    if ex in ("cqcc", "cqt_spectrogram"):
        ref.cqt_freqs(c)
    probs = extract(ex, sig, c, ex)
    return Result(util.collect(*probs), (ex, case["sig"]))
