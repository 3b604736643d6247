"""Shape and nesting of the feature matrices: every number of coefficients 1..nfilts in every configuration within the
deviation bound, every signal length around every frame boundary, against the frame count and the longest extraction."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip
from .c08 import FS, WINS

PID = "C09"
EXT = api.FBCC + ["pncc", "cqcc"] + api.LPCS


def params(ex, q):
    p = {"sig": ["noise1", "int16_noise2", "chirp", "gap", "f32_noise3"], "len": [[4, 37], [1, 0], [2, 0], [2, -1], [3, 1], [30, 5]],
         "fs": FS, "win": WINS, "pre_emph": [True, False]}
    if ex in api.FBCC or ex == "pncc":
        p.update(nfilts=[16, 13, 24, 26, 33, 40] if ex != "bfcc" else [16, 13, 26], nfft=[256, 255, 400, 512, 64] if ex != "bfcc" else [128, 255, 64],
                 low=[0, 300], hf=[None, 0.4], scale=["constant", "ascendant"], dct=[2, 1, 3, 4], lifter=[None, 2, 0.7, -7, 22])
    if ex in api.FBCC:
        p["energy"] = [False, True]
        p["bank"] = api.BANKS
    if ex in ("msrcc", "psrcc"):
        p["gamma"] = [-1 / 7, 0.5]
    if ex == "cqcc":
        p.update(nfft=[512, 1024, 2048], low=[0, 300], hf=[None, 0.4], dct=[2, 3, 4], lifter=[None, 2, -7], ratio=[1.0, 0.5, 2.0, 0.73, 1.3, 0.9],
                 octaves=[4, 7, 5], bpo=[12, 24], thr=[0.005, 0.0005], f0=[480, 120], q=[1.0, 0.5])
    if ex in ("plp", "rplp"):
        p.update(nfilts=[16, 24, 13], nfft=[128, 255, 64], low=[0, 300], hf=[None, 0.4], scale=["constant", "descendant"], lifter=[None, 2, -7])
    if ex == "lpcc":
        p.update(lifter=[None, 2, -7])
    return p


def spaces(tier):
    q = tier == "quick"
    out = []
    for ex in EXT:
        p = params(ex, q)
        base = {"ex": ex}
        if ex == "cqcc":
            base.update(api.CQT_DEFAULT)
        if ex not in api.LPCS and ex != "cqcc":
            p = {k: ([v[0]] + [x for x in v[1:]]) for k, v in p.items()}
        out.append(core.lattice(ex, p, 2, base=base) if q or ex in ("plp", "rplp", "bfcc", "pncc") else core.lattice(ex, p, 3, base=base))
        out.append(api.sweep_ex(ex, base, drop=("num_ceps", "norm") + (() if ex in ("lpc", "lpcc") else ("order",)), second={"nfilts": 16}))
        if ex in api.FBCC or ex == "pncc":
            out.append(core.product(ex + ", every number of coefficients", {"nfilts": [24, 40] if ex != "bfcc" else [24], "dct": [2, 1, 3, 4], "energy": [False, True] if ex != "pncc" else [False], "lifter": [None, -7, 2]},
                                    base=dict(base, every=1, nfft=128, len=[2, 0])))
        if ex in api.LPCS:
            out.append(core.product(ex + ", every order", {"fs": [16000, 8000], "lifter": [None, 3]}, base=dict(base, every=1, nfft=128, nfilts=30, len=[2, 0])))
        # every signal length over three hops, odd windows
        b = dict(base)
        b.update(fs=8000, nfilts=14, nfft=128 if ex != "cqcc" else 512, f0=400, lengths=1)
        lens = [[1, x] for x in range(0, 3 * 40 + 2)] if q else [[1, x] for x in range(0, 321)]
        if ex not in ("cqcc",):
            out.append(core.product(ex + " many frames", {"len": api.MANY, "sig": ["noise1", "int16_noise2"]}, base=dict(api.many(base), lengths=1)))
        else:
            out.append(core.product(ex + " many frames", {"len": api.MANY[:5], "ratio": [1.0, 0.5, 2.0]}, base=dict(api.many(base, nfft=64, f0=1600, bpo=12, octaves=2), lengths=1)))
        out.append(core.product(ex + " lengths", {"len": lens, "win": [[0.01, 0.005, "hamming"], [0.00715, 0.00715, "hanning"]]}, base=b))
    return out


def n_frames(c, n):
    wl, wh, _ = api.win_of(c)
    L, H = int(wl * c["fs"]), int(wh * c["fs"])
    return (n - L) // H + 1 if n >= L else 0


def run(case):
    ex = case["ex"]
    c = api.full(case)
    sig = api.make_signal(c)
    n = n_frames(c, len(sig))
    if n < 1:
        raise ModelSkip()
    probs, execs = [], 0
    if ex in api.LPCS:
        top = c["nfilts"] if ex in ("plp", "rplp") else 20 if not case.get("every") else 40
        for k in range(1, top + 1) if case.get("every") else ((1, 13) if case.get("lengths") else sorted({1, 2, 3, 12, 13, top})):
            if k > top:
                continue
            c["order"] = k
            got = api.call(ex, sig, c)
            execs += 1
            if ex == "lpc":
                a, e = got
                if np.shape(a) != (n, k) or np.size(e) != n or np.shape(e)[0] != n:
                    probs.append(f"lpc order {k}: shapes {np.shape(a)}, {np.shape(e)}, expected {(n, k)} and one error per frame")
            elif np.shape(got) != (n, k):
                probs.append(f"{ex} order {k}: shape {np.shape(got)}, expected {(n, k)}")
        return Result(probs, (n,), validated=execs, execs=execs)
    if ex == "cqcc":
        f, _ = ref.cqt_freqs(c)
        top = len(f)
        rows = int(n * c["ratio"])
        if rows < 1 or top < 2:
            raise ModelSkip()
    else:
        top, rows = c["nfilts"], n
    fb = api.supplied(c, None)
    if fb is not None:
        top = min(top, len(fb))
    c["num_ceps"] = top
    big = np.asarray(api.call(ex, sig, c, fb))
    execs = 1
    if big.shape != (rows, top):
        probs.append(f"{ex} num_ceps={top}: shape {big.shape}, expected {(rows, top)}")
    else:
        ks = range(1, top) if case.get("every") else (1, 13) if case.get("lengths") or ex == "bfcc" else sorted({1, 2, 3, 7, 12, 13, 14, top - 1}) if ex != "cqcc" else (1, 13)
        for k in ks:
            if k > top:
                continue
            c["num_ceps"] = k
            got = np.asarray(api.call(ex, sig, c, fb))
            execs += 1
            if got.shape != (rows, k):
                probs.append(f"{ex} num_ceps={k}: shape {got.shape}, expected {(rows, k)}")
                continue
            d = util.diff(got, big[:, :k], rtol=1e-10, atol=1e-12, what=f"{ex} num_ceps={k} vs first {k} of {top}")
            if d:
                probs.append(d)
    return Result(probs, (rows, top), validated=execs, execs=execs)
