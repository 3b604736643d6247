"""Spectral descriptors: every descriptor function on all spectra over a small alphabet (complex phases included), the
extractor on the signal / size / rate / gain lattice, against the defining sums; ranges and gain invariance on every state."""
import importlib

import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip
from .c08 import SIGS

PID = "C25"
MOD = "spafe.features.spfeats"
NAMES = ["spectral_centroid", "spectral_skewness", "spectral_kurtosis", "spectral_entropy", "spectral_spread", "spectral_flatness", "spectral_rolloff", "spectral_flux", "spectral_mean",
         "spectral_rms", "spectral_std", "spectral_variance"]


def stage(n):
    f = getattr(importlib.import_module(MOD), n, None)
    if f is None:
        raise ModelSkip()
    return f


def spaces(tier):
    q = tier == "quick"
    out = []
    for n in range(2, 6 if q else 8):
        out.append(core.tree(f"spectra of {n} bins", [0.0, 1.0, 3.0, 0.5] if n < 6 else [0.0, 1.0, 2.5], n, "words", base={"mode": "spec"}, minlen=n, chunk=64))
    p = {"sig": SIGS + ["square", "gap", "impulse", "tone", "tone2", "ones"], "n": [512, 100, 2, 600, 513, 37], "nfft": [512, 256, 511, 64, 33, 1024, 8, 7, 2, 3], "fs": [16000, 8000, 11025, 44100, 1, 48000]}
    out.append(core.product("signals", p if q else dict(p, n=p["n"] + [1000, 3, 255]), base={"mode": "sig"}))
    d = {"nfft": list(range(2, 140)) + [200, 255, 256, 257, 300, 400, 512, 1000, 1023, 1024, 1025, 2048, 4096], "n": list(range(2, 140)) + [511, 513, 1000, 1024, 4000], "fs": api.DENSE["fs"] + [1, 2, 100, 1000],
         "sig": api.DENSE["sig"]}
    out.append(core.sweeps("dense sweeps", d, [{"mode": "sig", "sig": "noise1", "n": 512, "nfft": 512, "fs": 16000}, {"mode": "sig", "sig": "int16_noise2", "n": 200, "nfft": 99, "fs": 11025}]))
    sp = core.product("tones", {"k": list(range(1, 32)), "nfft": [64, 128], "fs": [8000, 44100]}, base={"mode": "tone"})
    out.append(sp)
    out.append(core.product("bare", {"fs": [16000, 8000], "sig": ["noise1", "int16_chirp"]}, base={"mode": "bare"}))
    return out


def moments(m, f):
    w = m.sum()
    c = (m * f).sum() / w
    mu2 = (m * f ** 2).sum() / w
    return c, (m * (f - c) ** 3).sum() / (w * mu2 ** 3) if mu2 else None, (m * (f - c) ** 4).sum() / (w * mu2 ** 4) if mu2 else None, np.sqrt((m * (f - c) ** 2).sum() / w)


def entropy(m):
    p = m / m.sum()
    return -sum(v * np.log(v) for v in p if v > 0) / np.log(len(p))


def flatness(m):
    return float(np.exp(np.mean(np.log(m))) / np.mean(m)) if (m > 0).all() else 0.0


def rolloff(m, k=0.85):
    """-> admissible bins"""
    c = np.cumsum(m)
    t = k * c[-1]
    first = [i for i in range(len(c)) if c[i] >= t][0]
    tol = 1e-9 * c[-1]
    ok = {first}
    for i in range(len(c)):
        if abs(c[i] - t) < tol:
            ok |= {i, min(i + 1, len(c) - 1)} | ({j for j in range(i, len(c)) if c[j] - c[i] < tol})
            j = i
            while j < len(c) - 1 and c[j] <= t + tol:
                j += 1
                ok.add(j)
    return ok


def close(nm, g, w, tol=1e-8, scale=0.0):
    try:
        g = float(g)
    except (TypeError, ValueError):
        return f"{nm} is not a real scalar: {g!r}"
    if not np.isfinite(g) or abs(g - w) > tol * (abs(w) + scale) + 1e-12:
        return f"{nm} = {g}, expected {w}"
    return None


def run(case):
    m = case["mode"]
    probs, n = [], 0
    if m == "spec":
        C = {k: stage(k) for k in NAMES[:8]}
        for w in case["words"]:
            mag = np.array(w)
            if mag.sum() == 0:
                continue
            ph = np.exp(1j * np.arange(len(mag)) * 1.7)
            for spec in (mag, mag * ph, -mag):
                fs = 1000
                N = len(mag)
                fr = np.array([k if k <= N // 2 else N - k for k in range(N)]) * fs / N
                fr = np.array([min(k, N - k) for k in range(N)]) * fs / N
                c, sk, ku, sp = moments(mag, fr)
                n += 8
                probs += util.collect(
                    close("centroid", C["spectral_centroid"](fs, spec), c),
                    close("second moment", C["spectral_centroid"](fs, spec, 2), (mag * fr ** 2).sum() / mag.sum()),
                    close("spread", C["spectral_spread"](None, fs, spec), sp, scale=fs * 1e-4),
                    None if sk is None else close("skewness", C["spectral_skewness"](None, fs, spec), sk, scale=abs(ku or 0)),
                    None if ku is None else close("kurtosis", C["spectral_kurtosis"](None, fs, spec), ku),
                    close("entropy", C["spectral_entropy"](spec), entropy(mag), scale=1e-3),
                    close("flatness", C["spectral_flatness"](spec), flatness(mag), scale=1e-3) if (mag > 0).all() or spec is mag or spec is not mag and np.isrealobj(spec) else None,
                    close("flux", C["spectral_flux"](spec), np.sqrt((np.diff(mag) ** 2).sum()), scale=1e-3),
                    close("flux p=1", C["spectral_flux"](spec, 1), np.abs(np.diff(mag)).sum(), scale=1e-3),
                    close("flux p=3", C["spectral_flux"](spec, 3), (np.abs(np.diff(mag)) ** 3).sum() ** (1 / 3), scale=1e-3))
                for k in (0.85, 0.5, 0.95):
                    r = int(C["spectral_rolloff"](spec, k))
                    n += 1
                    if k == 0.5 and np.isrealobj(spec):        # dyadic sums: exact
                        ok = {int(np.nonzero(np.cumsum(mag) >= k * mag.sum())[0][0])}
                    else:
                        ok = rolloff(mag, k)
                    if r not in ok:
                        probs.append(f"rolloff({w}, {k}) = {r}, expected {sorted(ok)}")
            if len(probs) > 3:
                break
        return Result(probs[:4], len(case["words"][0]), validated=n, execs=n)
    ext = api.fn("extract_feats")
    if m == "tone":
        nfft, fs, k = case["nfft"], case["fs"], case["k"]
        if k >= nfft // 2:
            raise ModelSkip()
        got = ext(np.cos(2 * np.pi * k * np.arange(nfft) / nfft), fs, nfft=nfft)
        f0 = k * fs / nfft
        probs = util.collect(close("centroid of a tone", got["spectral_centroid"], f0, 1e-6), None if abs(got["spectral_spread"]) < 1e-4 * fs else f"spread of a tone {got['spectral_spread']}",
                             None if int(got["spectral_rolloff"]) == k else f"rolloff of a tone at bin {k}: {got['spectral_rolloff']}")
        return Result(probs, k)
    fs, nfft = case["fs"], case.get("nfft", 512)
    nn = case.get("n", 700)
    t = np.arange(nn)
    sig = np.sin(0.3 * t) if case["sig"] == "tone" else np.sin(0.3 * t) + 0.2 * np.cos(1.9 * t) if case["sig"] == "tone2" else util.signal(case["sig"], nn)
    x = np.asarray(sig, float)
    if m == "bare":
        got = ext(sig, fs)
    else:
        got = ext(sig, fs, nfft=nfft)
    two = np.abs(np.fft.fft(x, nfft))
    one = np.abs(np.fft.rfft(x, nfft))
    if one.sum() < 1e-9 * max(1e-300, np.abs(x[:nfft]).sum()) or one.sum() == 0:
        raise ModelSkip()
    fr = np.array([min(k, nfft - k) for k in range(nfft)]) * fs / nfft
    c, sk, ku, sp = moments(two, fr)
    if sorted(got) != sorted(NAMES):
        return Result([f"descriptors {sorted(got)}"], "names")
    tol = 1e-4 if x.dtype != np.asarray(sig).dtype and np.asarray(sig).dtype == np.float32 else 1e-8
    if tol == 1e-4 and (one.min() < 1e-3 * one.max()):
        tol = 1e-3
    noisy = one.min() < 1e-10 * one.max()      # bins that are zero to rounding: the geometric mean is not determined
    g = {k: got[k] for k in NAMES}
    probs = util.collect(
        close("centroid", g["spectral_centroid"], c, tol, scale=fs * 1e-6), close("spread", g["spectral_spread"], sp, tol, scale=fs * 1e-4 if not noisy else fs),
        None if not sk else close("skewness", g["spectral_skewness"], sk, tol, scale=abs(ku) + 1e-3 / (c or 1) ** 3), None if not ku else close("kurtosis", g["spectral_kurtosis"], ku, tol),
        close("entropy", g["spectral_entropy"], entropy(one), tol, scale=1e-3) if len(one) > 1 else None,
        close("flatness", g["spectral_flatness"], flatness(one), tol, scale=1e-3) if not noisy else None,
        close("flux", g["spectral_flux"], np.sqrt((np.diff(one) ** 2).sum()), tol, scale=one.max()), close("mean", g["spectral_mean"], one.mean(), tol),
        close("rms", g["spectral_rms"], np.sqrt((one ** 2).mean()), tol), close("std", g["spectral_std"], one.std(), tol, scale=one.max()),
        close("variance", g["spectral_variance"], one.var(), tol, scale=one.max() ** 2))
    if int(g["spectral_rolloff"]) not in rolloff(one) and tol == 1e-8:
        probs.append(f"rolloff {g['spectral_rolloff']}, expected {sorted(rolloff(one))}")
    # ranges
    if not -1e-6 * fs <= float(g["spectral_centroid"]) <= fs / 2 * (1 + 1e-9):
        probs.append("centroid outside [0, fs/2]")
    for k in ("spectral_entropy", "spectral_flatness"):
        if not -1e-9 <= float(g[k]) <= 1 + 1e-9:
            probs.append(f"{k} = {g[k]} outside [0, 1]")
    # gain (power of two: exact)
    if not probs:
        for gain in (8.0, 2.0 ** -7, -4.0):
            h = ext(x * gain, fs, nfft=nfft)
            b = ext(x, fs, nfft=nfft)
            for k in ("spectral_centroid", "spectral_spread", "spectral_skewness", "spectral_kurtosis", "spectral_entropy", "spectral_flatness", "spectral_rolloff"):
                d = close(k + f" at gain {gain}", h[k], float(b[k]), 1e-9, scale=1e-3)
                if d and not (k == "spectral_rolloff" and int(h[k]) in rolloff(one)):
                    probs.append(d)
            for k in ("spectral_mean", "spectral_rms", "spectral_std", "spectral_flux"):
                d = close(k + f" at gain {gain}", h[k], float(b[k]) * abs(gain), 1e-9, scale=1e-9 * one.max())
                if d:
                    probs.append(d)
    return Result(probs[:4], util.digest(np.array([float(g[k]) for k in NAMES])), execs=7, validated=len(NAMES))
