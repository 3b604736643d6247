"""Dominant frequency: a tone at every FFT bin for several transform sizes and rates, and the parameter lattice on adversarial
signals, against the arg-max of the explicit spectrum of each windowed frame."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip
from .c08 import FS, WINS, SIGS, LENS

PID = "C24"


def spaces(tier):
    q = tier == "quick"
    out = []
    for nfft in ((64, 63, 128, 256, 200) if q else (64, 63, 128, 127, 256, 255, 200, 512, 511, 1024)):
        sp = core.product(f"tones nfft={nfft}", {"k": list(range(0, nfft // 2 + 1)), "fs": [8000, 16000, 11025], "wt": ["hamming", "hanning", "blackman", "kaiser", "bartlet"] if not q else ["hamming", "hanning"]},
                          base={"mode": "tone", "nfft": nfft})
        out.append(sp)
    p = {"sig": SIGS + ["nyq", "square", "impulse", "ones", "lead", "gap"], "len": LENS, "fs": FS, "nfft": [512, 256, 400, 511, 1024, 333, 64, 2048], "win": WINS, "butter": [0, 1], "cut": [[50, 3000], [300, 2000], [1000, 3400], [60, 500]],
         "pos": [True, False]}
    out.append(core.lattice("signals", p, 3 if q else 5, base={"mode": "sig"}))
    out.append(core.product("many frames", {"len": api.MANY, "sig": ["noise1", "int16_noise2", "burst"], "butter": [0, 1], "pos": [True, False]}, base=api.many(mode="sig", cut=[300, 2000])))
    out.append(core.product("faint frames", {"case": [dict(sig="decay", len=[130, 0], fs=96000, win=[0.02, 0.02, "bartlet"], butter=0, cut=[50, 3000]), dict(sig="impulse", len=[40, 3], fs=16000, win=None, butter=1, cut=[1000, 3400])]
                            + [dict(sig=f"faint1e-{e}_{s}", len=[3, 5], fs=16000, win=None, butter=b, cut=[300, 2000]) for e in (100, 150, 170, 200, 250) for s in ("noise1", "voiced") for b in (0, 1)],
                                            "nfft": [512, 300], "pos": [True, False]}, base={"mode": "sig", "faint": 1}))
    d = {k: api.DENSE[k] for k in ("fs", "nfft", "win", "len", "sig")}
    d["nfft"] = [2, 3, 4, 5, 8, 16, 31] + d["nfft"]
    d["cut"] = [[lo, hi] for lo in (50, 100, 200, 300, 500, 1000) for hi in (1500, 2000, 2500, 3000, 3500)]
    for b in (0, 1):
        out.append(core.sweeps(f"dense sweeps butter={b}", d, [{"mode": "sig", "sig": "noise1", "len": [4, 9], "fs": 16000, "nfft": 512, "win": None, "butter": b, "cut": [300, 2000], "pos": True},
                                                               {"mode": "sig", "sig": "int16_noise2", "len": [3, 5], "fs": 11025, "nfft": 300, "win": [0.0201, 0.0102, "hanning"], "butter": b, "cut": [300, 2000], "pos": False}]))
    out.append(core.product("bare", {"fs": [f for f in FS if f > 6000], "sig": SIGS, "butter": [0, 1]}, base={"mode": "bare"}))
    return out


def check(sig, got, c, win, probs, margin=1e-7, alt=None):
    fr, L = ref.frames(np.asarray(sig, float), c["fs"], win[0], win[1])
    W = fr * ref.window(L, win[2])
    got = np.asarray(got, float)
    if got.shape != (len(W),):
        probs.append(f"{got.shape} values for {len(W)} frames")
        return 0
    M = np.abs(np.fft.rfft(W, c["nfft"], axis=1))
    n = 0
    if alt is not None:                       # frames of the same filter realised differently: where they disagree, rounding decides
        fa, _ = ref.frames(np.asarray(alt, float), c["fs"], win[0], win[1])
    for i, m in enumerate(M):
        if alt is not None and np.abs(fa[i] - fr[i]).max() > 1e-7 * np.abs(fr[i]).max():
            continue
        k = int(np.argmax(m))
        ok = [j for j in range(len(m)) if m[j] >= m[k] * (1 - margin)]      # ties to rounding: any of them
        if m[k] < 1e-280:        # (nearly) subnormal numbers: nothing left to compare
            ok = list(range(len(m)))
        n += 1
        if not any(abs(got[i] - j * c["fs"] / c["nfft"]) < 6e-4 for j in ok):
            probs.append(f"frame {i}: {got[i]}, expected {k * c['fs'] / c['nfft']} (bin {k})")
        if not 0 <= got[i] <= c["fs"] / 2 + 1e-3:
            probs.append(f"frame {i}: {got[i]} outside [0, fs/2]")
    return n


def run(case):
    f = api.fn("get_dominant_frequencies")
    probs = []
    if case.get("faint"):
        case = dict(case, **case["case"])
    if case["mode"] == "tone":
        nfft, fs, k = case["nfft"], case["fs"], case["k"]
        wl = (nfft + 0.5) / fs
        t = np.arange(3 * nfft)
        sig = np.cos(2 * np.pi * k * t / nfft)
        got = f(sig, fs, nfft=nfft, win_len=wl, win_hop=wl / 2, win_type=case["wt"])
        n = check(sig, got, {"fs": fs, "nfft": nfft}, (wl, wl / 2, case["wt"]), probs)
        if 4 <= k <= nfft // 2 - 4 and not probs and np.abs(np.asarray(got) - k * fs / nfft).max() > 6e-4:
            probs.append(f"tone at bin {k} reported at {got}")
        return Result(probs[:4], (nfft, k), validated=n)
    if case["mode"] == "bare":
        c = api.full({"fs": case["fs"], "sig": case["sig"]})
        sig = api.make_signal(c)
        got = f(sig, c["fs"], butter_filter=True) if case["butter"] else f(sig, c["fs"])
        cut = [50, 3000]
        win = (0.025, 0.01, "hamming")
        butter = case["butter"]
    else:
        c = api.full(case)
        sig = api.make_signal(c)
        win = api.win_of(c)
        cut = case["cut"]
        butter = case["butter"]
        if cut[1] >= c["fs"] / 2:
            raise ModelSkip()
        got = f(sig, c["fs"], butter_filter=bool(butter), lower_cutoff=cut[0], upper_cutoff=cut[1], nfft=c["nfft"], win_len=win[0], win_hop=win[1], win_type=win[2], only_positive=case["pos"])
    x = np.asarray(sig, float)
    if butter:
        from scipy import signal as ss
        b, a = ss.butter(6, [cut[0] * 2 / c["fs"], cut[1] * 2 / c["fs"]], "band")
        sos = ss.butter(6, [cut[0] * 2 / c["fs"], cut[1] * 2 / c["fs"]], "band", output="sos")
        y, y2 = ss.lfilter(b, a, x), ss.sosfilt(sos, x)
        if not np.isfinite(y).all() or np.abs(y - y2).max() > 1e-6 * np.abs(y2).max():     # the filter itself is numerically unreliable here
            raise ModelSkip()
        n = check(y2, got, c, win, probs, 1e-4, alt=y)
    else:
        n = check(x, got, c, win, probs)
    return Result(probs[:4], util.digest(got), validated=n)
