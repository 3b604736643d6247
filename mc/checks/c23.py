"""YIN: the difference function on all short frames, the normalisation and the threshold search on all sequences over small
alphabets with all lag ranges, the estimator on the parameter lattice, and every period of the lag range."""
import importlib

import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip

PID = "C23"
MOD = "spafe.frequencies.fundamental_frequencies"


def stage(n):
    f = getattr(importlib.import_module(MOD), n, None)
    if f is None:
        raise ModelSkip()
    return f


def spaces(tier):
    q = tier == "quick"
    out = []
    for n in range(2, 7 if q else 9):
        out.append(core.tree(f"difference, frames of {n}", [0.0, 1.0, -1.0, 2.5] if n < 6 else [0.0, 1.0, -1.0], n, "words", base={"mode": "diff"}, minlen=n, chunk=128))
    out.append(core.product("difference, long frames", {"n": [7, 50, 127, 128, 129, 255, 257, 480, 511, 512, 513, 800, 1000, 1023, 1024, 1025, 1500, 2047, 2049, 3001, 4096, 4097, 8193], "sig": ["noise1", "voiced", "int16_noise2", "burst", "off_noise6"],
                                                       "part": [0.1, 0.5, 1.0]}, base={"mode": "long"}))
    out.append(core.product("estimator, long windows", {"sig": ["voiced", "noise1", "int16_voiced", "chirp"], "fs": [16000, 44100], "ywin": [[0.06, 0.05], [0.1, 0.05], [0.2, 0.2]], "lohi": [[50, 2000], [20, 3000]], "thr": [0.1, 0.6]}, base={"mode": "yin", "n": 20000}))
    out.append(core.tree("normalised difference", [0.0, 1.0, 4.0, 0.25], 6 if q else 7, "words", base={"mode": "cmnd"}, minlen=2, chunk=256))
    out.append(core.tree("threshold search", [0.05, 0.1, 0.3, 1.0, 0.5], 6 if q else 7, "words", base={"mode": "pitch"}, minlen=2, chunk=512))
    p = {"sig": ["voiced", "noise1", "square", "int16_voiced", "burst", "chirp", "gap", "nyq", "zeros", "loud_voiced", "f32_voiced", "tri", "impulses"], "fs": [8000, 16000, 11025, 22050],
         "lohi": [[100, 2000], [50, 3000], [200, 900], [80, 500], [399, 1000]], "thr": [0.1, 0.05, 0.3, 0.8, 0.0, 1.5], "ywin": [[0.03, 0.015], [0.025, 0.01], [0.05, 0.05], [0.021, 0.003], [0.02, 0.03]],
         "n": [2500, 1700, 3001]}
    out.append(core.lattice("estimator", p, 3 if q else 5, base={"mode": "yin"}))
    # every period of the lag range
    for fs, lo, hi in ((8000, 80, 2000), (16000, 150, 3000)) if q else ((8000, 80, 2000), (16000, 150, 3000), (11025, 60, 1500), (22050, 100, 4000)):
        out.append(core.product(f"periods at {fs}", {"T": list(range(int(fs / hi), int(fs / lo))), "seed": [1, 2, 3], "kind": ["noise", "pulse", "int16", "sine"]},
                                base={"mode": "period", "fs": fs, "lohi": [lo, hi]}))
    out.append(core.product("long recordings", {"n": [16000, 32001, 48000] if q else [16000, 32001, 48000, 160000], "sig": ["voiced", "noise1", "burst"], "ywin": [[0.03, 0.015], [0.025, 0.005]]},
                            base={"mode": "yin", "fs": 8000, "lohi": [100, 2000], "thr": 0.1}))
    d = {"fs": [4000, 6000, 7999, 8000, 9600, 10000, 11025, 11111, 12000, 16000, 22050, 24000, 32000, 44100, 48000], "thr": [round(0.02 * i, 2) for i in range(51)] + [0.1, 0.15, 0.85, 1.2, 2.0],
         "lohi": [[lo, hi] for lo in (90, 100, 120, 150.5, 200, 333, 400) for hi in (500, 801, 1000, 1234.5, 2000)],
         "ywin": [[round(0.021 + 0.002 * i, 3), h] for i in range(16) for h in (0.005, 0.0101, 0.02)], "n": list(range(900, 1200, 7))}
    for sg in ("voiced", "noise1", "burst"):
        out.append(core.sweeps("dense sweeps " + sg, d, [{"mode": "yin", "sig": sg, "fs": 8000, "lohi": [100, 2000], "thr": 0.1, "ywin": [0.03, 0.015], "n": 2500},
                                                         {"mode": "yin", "sig": "int16_" + sg, "fs": 11025, "lohi": [150, 900], "thr": 0.4, "ywin": [0.025, 0.01], "n": 1700}]))
    out.append(core.product("bare", {"fs": [8000, 16000], "sig": ["voiced", "noise1"]}, base={"mode": "bare"}))
    out.append(core.product("lengths", {"n": list(range(241, 241 + 130 if q else 241 + 400))}, base={"mode": "yin", "sig": "voiced", "fs": 8000, "lohi": [100, 2000], "thr": 0.1, "ywin": [0.03, 0.015]}))
    return out


def gen(name, n):
    t = np.arange(n)
    if name == "tri":
        return np.abs((t % 50) - 25.0)
    if name == "impulses":
        return (t % 61 == 3).astype(float)
    return util.signal(name, n)


def model(sig, fs, wl, wh, lo, hi, thr):
    """-> per window (pitch, harmonic rate, argmin) or None where a decision hinges on rounding"""
    x = np.asarray(sig, float)
    tmin, tmax = int(fs / hi), int(fs / lo)
    L, H = int(wl * fs), int(wh * fs)
    if tmax > L or H < 1:
        raise ModelSkip()
    out = []
    starts = list(range(0, len(x) - L, H))
    for s in starts:
        f = x[s:s + L]
        d = ref.yin_difference(f, tmax)
        E = np.dot(f, f)
        if E == 0:
            out.append((0.0, 1.0, 0.0))
            continue
        if d[1:].max() <= 1e-9 * E or (np.cumsum(d[1:]) < 1e-6 * E).any():
            out.append(None)
            continue
        c = ref.yin_cmnd(d)
        p = ref.yin_pitch(c, tmin, tmax, thr)
        amb = False
        stop = p if p else tmax - 1
        first = next((t for t in range(tmin, tmax) if c[t] < thr), tmax)
        if (np.abs(c[tmin:min(first, tmax - 1) + 1] - thr) < 1e-7).any():
            amb = True
        for t in range(first, min(stop, tmax - 2) + 1):
            if abs(c[t + 1] - c[t]) < 1e-7:
                amb = True
        a = int(np.argmin(c))
        others = np.delete(c, a)
        amb_arg = len(others) and np.min(np.abs(others - c[a])) < 1e-7
        if amb:
            out.append(None)
            continue
        out.append((fs / p if p else 0.0, c[p] if p else c.min(), None if amb_arg else (fs / a if a > tmin else 0.0)))
    return starts, out


def compare(r, starts, want, fs):
    pit, hr, arg, tm = [np.asarray(a, float) for a in r]
    n = len(starts)
    for nm, a in (("pitches", pit), ("harmonic rates", hr), ("argmins", arg), ("times", tm)):
        if a.shape != (n,):
            return [f"{nm}: shape {a.shape}, expected {(n,)}"]
    probs = util.collect(util.diff(tm, np.array(starts) / fs, rtol=1e-12, what="times"))
    for i, w in enumerate(want):
        if w is None:
            continue
        if abs(pit[i] - w[0]) > 1e-6 * max(1, w[0]):
            probs.append(f"window {i}: pitch {pit[i]}, expected {w[0]}")
        if not abs(hr[i] - w[1]) < 1e-6:
            probs.append(f"window {i}: harmonic rate {hr[i]}, expected {w[1]}")
        if w[2] is not None and not abs(arg[i] - w[2]) <= 1e-6 * max(1, w[2]):
            probs.append(f"window {i}: argmin {arg[i]}, expected {w[2]}")
    return probs[:4]


def run(case):
    m = case["mode"]
    probs, n = [], 0
    if m == "diff":
        f = stage("compute_difference")
        for w in case["words"]:
            x = np.array(w)
            for t in range(1, len(x) + 1):
                got = f(x.copy(), t)
                n += 1
                d = util.diff(got, ref.yin_difference(x, t), atol=1e-9, what=f"difference of {w}, tau_max {t}")
                if d:
                    probs.append(d)
        return Result(probs[:4], len(case["words"][0]), validated=n, execs=n)
    if m == "long":
        x = gen(case["sig"], case["n"])
        t = max(2, int(case["n"] * case["part"]))
        want = ref.yin_difference(np.asarray(x, float), t)
        E = float(np.dot(np.asarray(x, float), np.asarray(x, float)))
        return Result(util.collect(util.diff(stage("compute_difference")(x.copy(), t), want, rtol=0, atol=1e-11 * E, what="difference")), util.digest(want), validated=t)
    if m == "cmnd":
        f = stage("compute_cmnd")
        for w in case["words"]:
            d = np.array(w)
            if d[1] == 0:      # 0/0
                continue
            d[0] = 0
            n += 1
            z = util.diff(f(d.copy(), len(d)), ref.yin_cmnd(d), rtol=1e-10, what=f"cmnd of {w}")
            if z:
                probs.append(z)
        return Result(probs[:4], n, validated=n, execs=n)
    if m == "pitch":
        f = stage("get_pitch")
        for w in case["words"]:
            c = np.array(w)
            for lo in range(len(c)):
                for hi in range(lo, len(c) + 1):
                    for thr in (0.1, 0.07, 0.5):
                        n += 1
                        g, e = f(c, lo, hi, thr), ref.yin_pitch(c, lo, hi, thr)
                        if g != e:
                            probs.append(f"get_pitch({w}, {lo}, {hi}, {thr}) = {g}, expected {e}")
            if len(probs) > 3:
                break
        return Result(probs[:4], n, validated=n, execs=n)
    yin = api.fn("compute_yin")
    if m == "bare":
        sig = gen(case["sig"], 3000)
        starts, want = model(sig, case["fs"], 0.03, 0.015, 50, 3000, 0.1)
        return Result(compare(yin(sig, case["fs"]), starts, want, case["fs"]), case["sig"], validated=len(starts))
    if m == "yin":
        sig = gen(case["sig"], case["n"])
        (lo, hi), (wl, wh) = case["lohi"], case["ywin"]
        starts, want = model(sig, case["fs"], wl, wh, lo, hi, case["thr"])
        got = yin(sig, case["fs"], win_len=wl, win_hop=wh, low_freq=lo, high_freq=hi, harmonic_threshold=case["thr"])
        return Result(compare(got, starts, want, case["fs"]), util.digest(np.array([w[0] if w else -1 for w in want])), validated=len(starts))
    # periods
    T, fs, (lo, hi) = case["T"], case["fs"], case["lohi"]
    tmax = int(fs / lo)
    L = 4 * tmax
    N = 3 * L
    t = np.arange(N)
    if case["kind"] == "sine":
        if T < 12:
            raise ModelSkip()
        x = np.sin(2 * np.pi * t / T + case["seed"]) + 0.5 * np.sin(4 * np.pi * t / T)
    elif case["kind"] == "pulse":
        x = (t % T == case["seed"]).astype(float)
    else:
        pat = util.lcg(T, case["seed"] + 3)
        if T <= 4:
            pat = np.array([1.0, -2.0, 0.5, 3.0][:T])
        x = pat[t % T]
        if case["kind"] == "int16":
            x = np.round(x * 10000).astype(np.int16)
    starts, want = model(x, fs, L / fs, L / fs / 2, lo, hi, 0.1)
    pit, hr, _, tm = yin(x, fs, win_len=L / fs, win_hop=L / fs / 2, low_freq=lo, high_freq=hi, harmonic_threshold=0.1)
    probs = compare((pit, hr, _, tm), starts, want, fs)
    if case["kind"] in ("noise", "int16") and not probs:
        c = ref.yin_cmnd(ref.yin_difference(np.asarray(x[:L], float), tmax))
        if not (c[1:T] < 0.12).any() and np.abs(np.asarray(pit) - fs / T).max() > 1e-6:
            probs.append(f"period {T} ({fs / T:.2f} Hz) reported as {np.asarray(pit)[:3]}")
    return Result(probs, (T, case["kind"]), validated=len(starts))
