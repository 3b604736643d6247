"""Constant-Q transform and CQCC: the parameter lattice of both against the model, compute_constant_qtransform itself, and a
tone at every analysed frequency."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip

PID = "C22"
SIGS = ["noise1", "int16_noise2", "chirp", "voiced", "burst", "f32_noise3", "full16_noise4"]
FS = [16000, 8000, 11025, 22050, 44100]
WINS = [None, [0.025, 0.01, "hanning"], [0.03, 0.015, "blackman"], [0.02, 0.02, "bartlet"], [0.0251, 0.0077, "kaiser"], [0.05, 0.02, "hamming"], [0.01, 0.005, "hamming"]]


def spaces(tier):
    q = tier == "quick"
    out = []
    base = dict(api.CQT_DEFAULT, nfft=512)
    p = {"sig": SIGS, "len": [[3, 37], [1, 0], [2, -1], [9, 3]], "fs": FS, "win": WINS, "nfft": [512, 256, 511, 400, 1024], "pre_emph": [True, False], "coeff": [0.97, 0.5, 0.0],
         "low": [0, 133.3, 1000], "hf": [None, 0.5, 0.4, 0.25], "octaves": [4, 7, 2, 3, 1], "bpo": [12, 24, 5, 36], "thr": [0.005, 0.0, 0.0005, 0.05], "f0": [490, 120, 333.3, 1000],
         "q": [1.0, 0.5, 2.0]}
    out.append(core.lattice("cqt", p, 2 if q else 3, base=dict(base, ex="cqt_spectrogram")))
    p3 = {k: v[:3] for k, v in p.items()}
    p3.update(fs=[8000, 11025, 16000], nfft=[256, 255, 300], f0=[810, 490, 1000], octaves=[2, 3, 1], hf=[None, 0.4, 0.25], low=[0, 1000], bpo=[12, 5])
    out.append(core.lattice("cqt, three deviations", p3, 3 if q else 4, base=dict(base, ex="cqt_spectrogram")))
    p3 = {k: v[:2] for k, v in p3.items()}
    p3.update(num_ceps=[5, 1, 13], dct=[2, 1, 3, 4], lifter=[None, 3, -7], norm=[None, "mvn", "mn"], ratio=[1.0, 0.5, 1.3])
    out.append(core.lattice("cqcc, three deviations", p3, 3 if q else 4, base=dict(base, ex="cqcc")))
    p2 = {k: (v if not q else v[:3]) for k, v in p.items()}
    p2.update(num_ceps=[13, 1, 5], dct=[2, 1, 3, 4], lifter=[None, 3, 0.7, -7, 22], norm=[None, "mvn", "ms", "vn", "mn"], ratio=[1.0, 0.5, 2.0, 0.73, 1.3])
    out.append(core.lattice("cqcc", p2, 2 if q else 3, base=dict(base, ex="cqcc")))
    out.append(api.sweep_ex("cqt_spectrogram"))
    out.append(api.sweep_ex("cqcc"))
    out.append(core.product("many frames", {"ex": ["cqt_spectrogram", "cqcc"], "len": api.MANY, "sig": ["noise1", "int16_noise2"], "ratio": [1.0, 0.5]},
                            base=api.many(dict(api.CQT_DEFAULT, f0=1630, bpo=12, octaves=2, num_ceps=5), nfft=64)))
    out.append(core.product("band limits at a bin", {"ex": ["cqt_spectrogram", "cqcc"], "fs": [8000, 16000, 22050], "f0": [500, 1000, 625], "bpo": [12, 5, 7], "octaves": [1, 2, 3], "low": [0, 500, 625, 1000, 1250, 2000],
                                                     "high_hz": [None, 1000, 1250, 2000, 2500, 4000]}, base=dict(api.CQT_DEFAULT, nfft=512, win=[0.032, 0.01, "hamming"], len=[2, 5], num_ceps=2), valid=lambda c: c["low"] < (c["high_hz"] or c["fs"] / 2) and (c["high_hz"] or 0) <= c["fs"] / 2))
    out.append(core.product("bins just below half the rate", {"ex": ["cqt_spectrogram", "cqcc"], "fs": [16000, 8000, 11025, 8001, 7999, 12345], "gap": [0.0, 0.1, 0.3, 0.45, 0.55, 0.9], "bpo": [1, 2, 5], "octaves": [2, 3]},
                            base=dict(api.CQT_DEFAULT, nfft=512, len=[2, 5], num_ceps=1, low=0, hf=None)))
    out.append(core.product("bare", {"ex": ["cqt_spectrogram", "cqcc", "direct"], "fs": [16000, 8000, 22050]}, base={"bare": 1}))
    out.append(core.product("tones", {"fs": [8000, 16000], "bpo": [12, 24, 5], "nfft": [256, 512, 1024], "wt": ["hamming", "hanning", "kaiser", "blackman", "bartlet"], "q": [1.0, 0.5]},
                            base={"tone": 1, "octaves": 5, "f0": 400.3, "thr": 0.0, "low": 0, "hf": None}))
    out.append(core.lattice("direct", {"shape": [[3, 200], [1, 512], [2, 700], [4, 31], [2, 511], [2, 513]], "nfft": [512, 256, 511], "fs": [16000, 8000], "lo": [0, 700], "hi": [None, 3000, 2500], "octaves": [4, 2],
                                       "bpo": [12, 7], "wt": ["hamming", "kaiser", "hanning", "blackman", "bartlet"], "thr": [0.0054, 0.0, 0.02], "f0": [490, 810], "q": [1.0, 0.7], "listed": [0, 1]}, 2 if q else 4, base={"direct": 1}))
    return out


def run(case):
    if case.get("direct") or (case.get("bare") and case["ex"] == "direct"):
        f = api.fn("compute_constant_qtransform")
        if case.get("bare"):
            c = dict(api.CQT_DEFAULT, nfft=512, fs=case["fs"], low=0, high=None, bpo=12, thr=0.0054)
            X = (util.lcg(3 * 300, 2)).reshape(3, 300)
            got = f(X, fs=case["fs"])
            wt = "hamming"
        else:
            c = {"nfft": case["nfft"], "fs": case["fs"], "low": case["lo"], "high": case["hi"], "octaves": case["octaves"], "bpo": case["bpo"], "thr": case["thr"], "f0": case["f0"], "q": case["q"]}
            r, n = case["shape"]
            X = (util.lcg(r * n, 3) * 4).reshape(r, n)
            wt = case["wt"]
            ref.cqt_kernel(c, wt)
            got = f(list(X) if case["listed"] else X, fs=c["fs"], low_freq=c["low"], high_freq=c["high"], nfft=c["nfft"], number_of_octaves=c["octaves"], number_of_bins_per_octave=c["bpo"],
                    win_type=wt, spectral_threshold=c["thr"], f0=c["f0"], q_rate=c["q"])
        _, S, _ = ref.cqt_kernel(c, wt)
        want = np.conj(S) @ np.fft.fft(X[:, :c["nfft"]], c["nfft"], axis=1).T / c["nfft"]
        return Result(util.collect(util.diff(got, want, rtol=1e-9, atol=1e-14 * np.abs(X).max(), what="compute_constant_qtransform")), util.digest(want), validated=len(X))
    if "gap" in case:
        case = dict(case, f0=(case["fs"] / 2 - case["gap"]) / 2)
    if case.get("tone"):
        c = api.full(case)
        c["pre_emph"] = False
        L = c["nfft"]
        c["win"] = [(L + 0.5) / c["fs"], (L + 0.5) / c["fs"], case["wt"]]      # the frame covers the transform
        f, n = ref.cqt_freqs(c)
        t = np.arange(L)
        sig = np.concatenate([np.cos(2 * np.pi * fk / c["fs"] * t + 0.3) for fk in f])
        got = np.asarray(api.call("cqt_spectrogram", sig, c))
        if got.shape != (len(f), len(f)):
            return Result([f"shape {got.shape}, expected {(len(f), len(f))}"], "shape")
        _, _, K = ref.cqt_kernel(c, case["wt"])
        w = ref.window(L, case["wt"])
        want = np.array([[np.vdot(K[i], sig[j * L:(j + 1) * L] * w) for j in range(len(f))] for i in range(len(f))])     # correlation in time
        d = util.diff(got, want, rtol=1e-9, what="CQT of the tones vs correlation in the time domain")
        return Result(util.collect(d), util.digest(want), validated=len(f))
    ex = case["ex"]
    if case.get("bare"):
        c = api.full(dict(api.CQT_DEFAULT, fs=case["fs"]))
        sig = api.make_signal(c)
        want = ref.cqt(c, sig) if ex != "cqcc" else ref.cqcc(c, sig)
        got = api.fn(ex)(sig, c["fs"])
    else:
        c = api.full(case)
        sig = api.make_signal(c)
        if ex == "cqcc":
            nb = len(ref.cqt_freqs(c)[0])
            if nb < 2 or c["num_ceps"] > nb:
                raise ModelSkip()
            want = ref.cqcc(dict(c, norm=None), sig)
            if c["norm"] and np.std(want) < 1e-8:
                raise ModelSkip()
            want = ref.cqcc(c, sig)
        else:
            want = ref.cqt(c, sig)
        got = api.call(ex, sig, c)
    if ex == "cqcc":
        d = util.diff(got, want, rtol=2e-8, atol=2e-8 + ref.cqcc_noise(c, sig), what=ex)
    else:
        d = util.diff(got, want, rtol=1e-9, atol=ref.cqt_noise(c, sig), what=ex)
    return Result(util.collect(d), util.digest(want), validated=want.shape[0 if ex == "cqcc" else 1])
