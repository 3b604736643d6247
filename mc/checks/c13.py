"""Gain and polarity: every extractor, spectrogram, pitch and dominant-frequency function in every configuration within the
deviation bound, at every gain of the alphabet (powers of two and others, both signs), against the exact response law."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip
from .c08 import FS, WINS

PID = "C13"
SPECS = {"mel_spectrogram": "mel", "linear_spectrogram": "lin", "bark_spectrogram": "bark", "erb_spectrogram": "gam"}
GAINS = [2.0, 0.5, 1024.0, 2.0 ** -12, 3.7, 1e-3, 1e4, 0.1, -1.0, -4.0, -0.3, 2.0 ** 15, 2.0 ** -20]
FAR = [2.0 ** -60, 2.0 ** -200, 2.0 ** -300, 2.0 ** 60]
FEW = [2.0 ** 15, 2.0 ** -12, -1.0]
LAW = ["mfcc", "imfcc", "lfcc", "ngcc", "gfcc", "msrcc", "psrcc", "lpc", "lpcc", "cqcc", "cqt_spectrogram"] + list(SPECS)
POLAR = ["bfcc", "pncc", "plp", "rplp"]
SIGS = ["noise1", "chirp", "voiced", "burst", "noise2", "off_noise6", "quiet_noise8"]


def spaces(tier):
    q = tier == "quick"
    out = []
    for ex in LAW + POLAR:
        bark = ex in ("bfcc", "plp", "rplp", "bark_spectrogram")
        p = {"sig": SIGS, "fs": FS, "nfft": [512, 400, 511, 1024] if not bark else [128, 255], "nfilts": [20, 13, 26, 32], "low": [0, 133.3, 300], "hf": [None, 0.4, 0.25],
             "scale": ["constant", "ascendant", "descendant"], "pre_emph": [True, False], "coeff": [0.97, 0.5], "win": WINS, "len": [[4, 9], [1, 0], [12, 1]],
             "num_ceps": [13, 1, 5], "dct": [2, 1, 3, 4], "energy": [False, True], "lifter": [None, 3, 0.7, -7], "order": [13, 2, 8]}
        base = {"ex": ex}
        if ex in ("msrcc", "psrcc"):
            p["gamma"] = [-1 / 7, 0.5, -0.3]
        if ex in ("lpc", "lpcc", "cqcc", "cqt_spectrogram"):
            for k in ("nfilts", "scale", "energy"):
                p.pop(k)
        if ex in ("lpc", "lpcc", "plp", "rplp"):
            for k in ("num_ceps", "dct", "nfft") if ex in ("lpc", "lpcc") else ("num_ceps", "dct"):
                p.pop(k)
            if ex in ("lpc", "lpcc"):
                p.pop("low"), p.pop("hf")
        else:
            p.pop("order")
        if ex in ("lpc",) or ex in SPECS or ex == "cqt_spectrogram":
            for k in ("lifter", "dct", "energy", "num_ceps"):
                p.pop(k, None)
        if ex in ("cqcc", "cqt_spectrogram"):
            base.update(api.CQT_DEFAULT, f0=480, bpo=12, octaves=4)
            p["nfft"] = [512, 256]
            p["fs"] = [16000, 8000]
        if ex in ("pncc", "plp", "rplp", "lpcc"):
            p.pop("energy", None)
        p3 = {k: v[:2] for k, v in p.items()}
        p3.update({k: v for k, v in {"sig": ["noise1", "burst", "off_noise6"], "nfft": [128, 255] if not bark else [64, 63], "nfilts": [16, 13, 26], "len": [[3, 9], [1, 0]], "scale": ["constant", "ascendant", "descendant"],
                                     "dct": [2, 1, 3, 4], "lifter": [None, 3, -7], "hf": [None, 0.4], "fs": [16000, 8000, 44100], "num_ceps": [13, 1, "all"], "order": [8, 2]}.items() if k in p})
        if "cq" in ex:
            p3.update(nfft=[256, 300], fs=[8000, 16000])
        out.append(api.sweep_ex(ex, dict(base, gains="few", len=[3, 9]), drop=("norm", "sig")))
        if ex in LAW:
            pf = dict(p3, sig=["noise1", "noise2", "voiced"])
            out.append(core.lattice(ex + ", extreme levels", pf, 1 if q else 2, base=dict(base, gains="far")))
        out.append(core.lattice(ex + ", three deviations", p3, 3, base=dict(base, gains="few")))
        out.append(core.lattice(ex, p, 2 if q and ex not in ("cqcc", "cqt_spectrogram") else 1 if q else 3 if not bark else 2, base=base))
    out.append(core.lattice("dominant", {"sig": SIGS + ["int16_noise2", "zeros", "square", "impulse"], "fs": [f for f in FS if f > 6000], "nfft": [512, 400, 511], "butter": [0, 1], "win": WINS}, 2 if q else 4,
                            base={"ex": "dominant", "len": [5, 9]}))
    out.append(core.lattice("yin", {"sig": SIGS + ["square", "zeros", "nyq", "impulse"], "fs": [8000, 16000, 11025], "lohi": [[50, 3000], [100, 1000], [200, 900]],
                                    "thr": [0.1, 0.3, 0.8, 0.02], "ywin": [[0.03, 0.015], [0.025, 0.01], [0.05, 0.02]]}, 2 if q else 5, base={"ex": "yin", "n": 2500}))
    return out


def pow2(g):
    return np.frexp(abs(g))[0] == 0.5


def run(case):
    ex = case["ex"]
    if ex == "yin":
        sig = np.asarray(util.signal(case["sig"], case["n"]), float)
        f = api.fn("compute_yin")
        k = dict(fs=case["fs"], win_len=case["ywin"][0], win_hop=case["ywin"][1], low_freq=case["lohi"][0], high_freq=case["lohi"][1], harmonic_threshold=case["thr"])
        base = f(sig, **k)
        probs = []
        for g in GAINS + FAR:
            if pow2(g):
                got = f(g * sig, **k)
                for j, nm in ((0, "pitches"), (2, "argmins"), (3, "times")):
                    d = util.diff(got[j], base[j], rtol=1e-12, what=f"yin {nm} at gain {g}")
                    if d:
                        probs.append(d)
        return Result(probs[:4], util.digest(base[0]), execs=8, validated=7)
    c = api.full(case)
    if ex in ("plp", "rplp") and c["order"] > c["nfilts"]:
        raise ModelSkip()
    if ex in api.FBCC and c["num_ceps"] > c["nfilts"]:
        raise ModelSkip()
    sig = np.asarray(api.make_signal(c), float)
    if ex == "dominant":
        wl, wh, wt = api.win_of(c)
        f = lambda s: np.asarray(api.fn("get_dominant_frequencies")(s, c["fs"], butter_filter=bool(case["butter"]), lower_cutoff=100, upper_cutoff=3000,
                                                                    nfft=c["nfft"], win_len=wl, win_hop=wh, win_type=wt))
        base = f(sig)
        probs = [d for g in GAINS + FAR if pow2(g) for d in [util.diff(f(g * sig), base, rtol=1e-12, what=f"dominant at gain {g}")] if d]
        return Result(probs[:4], util.digest(base), execs=8, validated=7)
    kind = SPECS.get(ex) or ref.BANK_OF.get(ex)
    if kind:
        fb, _, amb, _ = ref.bank(kind, c["nfilts"], c["nfft"], c["fs"], c["low"], c["high"], c["scale"], c["conv"])
        if (fb.max(axis=1) < 1e-3).any() and ex not in SPECS:      # empty bands: the floor, not the signal, decides
            raise ModelSkip()
    if ex == "psrcc":
        ref.fbcc("psrcc", c, sig)      # domain: phases away from the wrap
    call = (lambda s: api.call_spec(SPECS[ex], s, c)) if ex in SPECS else (lambda s: api.call(ex, s, c))
    base = call(sig)
    probs, execs = [], 1
    extra = ref.cqt_noise(c, sig) if ex == "cqt_spectrogram" else ref.cqcc_noise(c, sig) if ex == "cqcc" else 0.0
    for g in ({"few": FEW, "far": FAR}[case["gains"]] if case.get("gains") else GAINS):
        if ex in POLAR and g != -1.0 or ex == "psrcc" and g < 0:
            continue
        got = call(g * sig)
        execs += 1
        a = abs(g)
        if ex in POLAR:
            pairs = [(got, np.asarray(base))]
        elif ex in SPECS:
            pairs = [(got[0], np.asarray(base[0]) * a ** 2), (got[1], np.asarray(base[1]) * a)]
        elif ex == "cqt_spectrogram":
            pairs = [(got, np.asarray(base) * g)]
        elif ex == "lpc":
            pairs = [(got[0], np.asarray(base[0])), (got[1], np.asarray(base[1]) * a ** 2)]
        else:
            b = np.asarray(base, float)
            k = b.shape[1]
            if ex == "gfcc":
                w = b * a ** (2 / 3)
            elif ex == "msrcc":
                w = b * a ** (2 * c["gamma"])
            elif ex == "psrcc":
                w = b.copy()
            else:
                if ex == "lpcc":
                    add = np.zeros(k)
                    add[0] = 2 * np.log(a)
                else:
                    n = len(ref.cqt_freqs(c)[0]) if ex == "cqcc" else c["nfilts"]
                    add = ref.dct(np.full((1, n), 2 * np.log(a)), c["dct"], k)[0]
                if c["lifter"]:
                    add = ref.lifter(add[None, :], c["lifter"])[0]
                w = b + add
            if c["energy"] and ex in api.FBCC:
                lf = ref.lifter(np.ones((1, k)), c["lifter"])[0, 0] if c["lifter"] else 1.0
                w[:, 0] = b[:, 0] + 2 * np.log(a) * lf
            pairs = [(got, w)]
        for j, (x, w) in enumerate(pairs):
            d = util.diff(x, w, rtol=1e-8, atol=(1e-8 * {"gfcc": a ** (2 / 3), "msrcc": a ** (2 * c["gamma"])}.get(ex, 1.0) if ex not in SPECS and ex not in ("cqt_spectrogram", "lpc") else 0.0) + extra * (a if ex == "cqt_spectrogram" else 1), what=f"{ex} output {j} at gain {g}")
            if d:
                probs.append(d)
    return Result(probs[:4], util.digest(base[0]), execs=execs, validated=execs - 1)
