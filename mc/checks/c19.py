"""LPC and LPCC: all windows of short frames over a small alphabet with all orders, the signal lattice, and the cepstral
recursion for every combination of model order and number of cepstra, against the normal equations and the recursion."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip
from .c08 import FS, WINS, SIGS

PID = "C19"
A = [0.0, 1.0, -1.0, 0.5]


def spaces(tier):
    q = tier == "quick"
    out = []
    # all short frames
    for n in ((3, 4, 5) if q else (3, 4, 5, 6, 7)):
        alpha = A if n < 6 else A[:3]
        out.append(core.tree(f"frames of {n} samples", alpha, n, "frames", base={"mode": "frame", "n": n}, minlen=n, chunk=32))
    p = {"sig": SIGS + ["square", "gap", "impulse", "zeros", "ones", "nyq16"], "len": [[4, 9], [1, 0], [2, -1], [12, 3]], "fs": FS, "win": WINS, "order": [13, 1, 2, 3, 5, 8, 12, 14, 20, 30],
         "pre_emph": [True, False], "coeff": [0.97, 0.5, 0.0, 1.0, 0.95]}
    out.append(core.lattice("lpc signals", p, 3 if q else 4, base={"mode": "lpc"}))
    p2 = dict(p, lifter=[None, 3, -7, 0, 22], norm=[None, "mvn", "ms"])
    out.append(core.lattice("lpcc signals", p2, 2 if q else 3, base={"mode": "lpcc"}))
    out.append(core.product("many frames", {"mode": ["lpc", "lpcc"], "len": api.MANY[:6] if q else api.MANY, "sig": ["noise1", "int16_noise2"], "pre_emph": [True, False]}, base=api.many()))
    out.append(api.sweep_ex("lpc", {"mode": "lpc"}))
    out.append(api.sweep_ex("lpcc", {"mode": "lpcc"}))
    out.append(core.product("coefficients at any level", {"sig": [f"faint{e}_{s}" for e in ("1e-10", "1e-60", "1e-100", "1e-140", "1e-152", "1e-154", "1e-156") for s in ("noise1", "voiced")], "order": [13, 2, 8],
                                                           "pre_emph": [True, False], "fs": [16000, 8000]}, base={"mode": "level", "len": [3, 9]}))
    out.append(core.product("recursion", {"p": list(range(1, 16)), "nc": list(range(1, 25)), "seed": [1, 2, 3], "e": [1.0, 0.3, 1e-9, 40.0, 0.0]}, base={"mode": "rec"}))
    sp = core.tree("recursion words", [0.0, 0.5, -1.0], 4, "words", base={"mode": "recw"}, minlen=1, chunk=16)
    out.append(sp)
    out.append(core.product("error falls with the order", {"sig": SIGS, "win": WINS[:4], "pre_emph": [True, False], "fs": [8000, 16000]}, base={"mode": "mono", "len": [3, 5]}))
    out.append(core.product("AR process recovered", {"poles": [[[0.9, 0.3]], [[0.8, 1.2]], [[0.95, 0.1], [0.7, 2.0]], [[0.5, 0.0]]]}, base={"mode": "ar"}))
    out.append(core.product("bare", {"fs": [16000, 8000, 44100], "ex": ["lpc", "lpcc"]}, base={"mode": "bare"}))
    return out


def check_lpc(w, order, a, e, what):
    """w: windowed frame; order: number of returned coefficients"""
    p = order - 1
    r = ref.autocorr(w, p)
    if r[0] == 0:
        ok = np.allclose(a, np.r_[1.0, np.zeros(p)], atol=1e-12) and abs(e) < 1e-12
        return [] if ok else [f"{what}: silent frame gave {a}, {e}"]
    if not abs(a[0] - 1) < 1e-12:
        return [f"{what}: first coefficient {a[0]}"]
    if not np.isfinite(a).all() or not np.isfinite(e):
        return [f"{what}: not finite"]
    probs = []
    wa, we, cond = ref.lpc_frame(w, p) if p else (np.ones(1), r[0], 1.0)
    if cond > 1e11:          # numerically singular: any least-squares solution will do
        return []
    if p:
        d = util.diff(a, wa, rtol=1e-9 + 1e-14 * cond, atol=1e-14 * cond, what=what + " coefficients")
        if d:
            probs.append(d)
    # the error is r[0] + sum a r, non-negative
    if not abs(e - we) <= (1e-8 + 1e-14 * cond) * r[0]:
        probs.append(f"{what}: error {e}, expected {we}")
    return probs


def run(case):
    m = case["mode"]
    lpc, conv = api.fn("lpc"), api.fn("lpc2lpcc")
    if m == "rec" or m == "recw":
        probs, n = [], 0
        if m == "rec":
            todo = [(np.r_[1.0, util.lcg(case["p"], case["seed"])[:case["p"] - 1] * 0.4], case["e"], [case["nc"]])]
        else:
            todo = [(np.r_[1.0, np.array(w)], 0.7, list(range(1, 8))) for w in case["words"]]
        for a, e, ncs in todo:
            for nc in ncs:
                got = np.array([float(np.asarray(v)) for v in conv(a.copy(), np.float64(e), nc)])
                n += 1
                d = util.diff(got, ref.lpc2lpcc(a, e, nc), rtol=1e-10, atol=1e-12, what=f"lpc2lpcc of {len(a)} coefficients, {nc} cepstra")
                if d:
                    probs.append(d)
        return Result(probs[:4], (m, n), validated=n, execs=n)
    if m == "frame":
        # hop == frame length: every row is one word; unit-rate window of n samples
        n, fs = case["n"], 1000
        sig = np.concatenate([np.array(f) for f in case["frames"]])
        probs = []
        for wt in ("hamming", "blackman", "bartlet"):
            w = ref.window(n, wt)
            win = api.fn("SlidingWindow")((n + 0.5) / fs, (n + 0.5) / fs, wt)
            for order in range(1, n + 1):
                a, e = lpc(sig, fs=fs, order=order, pre_emph=False, window=win)
                a, e = np.asarray(a), np.asarray(e).reshape(-1)
                if a.shape != (len(case["frames"]), order):
                    return Result([f"shape {a.shape}"], "shape")
                for i, f in enumerate(case["frames"]):
                    probs += check_lpc(np.array(f) * w, order, a[i], e[i], f"lpc order {order} of frame {f} ({wt})")
        return Result(probs[:4], (n, len(case["frames"])), validated=len(case["frames"]) * n * 3, execs=3 * n)
    if m == "ar":
        # impulse response of an all-pole filter: the predictor is the filter itself
        den = np.ones(1)
        for rad, ang in case["poles"]:
            den = np.convolve(den, [1, -2 * rad * np.cos(ang), rad * rad] if ang else [1, -rad])
        n = 2000
        x = np.zeros(n)
        for t in range(n):
            x[t] = (t == 0) - sum(den[k] * x[t - k] for k in range(1, len(den)) if t >= k)
        # rectangular analysis is not available: compare in the limit through the autocorrelation method on the windowed frame
        win = api.fn("SlidingWindow")(n / 8000, n / 8000, "hamming")
        a, e = lpc(x, fs=8000, order=len(den), pre_emph=False, window=win)
        probs = check_lpc(x * ref.window(n, "hamming"), len(den), np.asarray(a)[0], float(np.asarray(e).reshape(-1)[0]), "all-pole impulse response")
        if np.abs(np.asarray(a)[0] - den).max() > 0.05:
            probs.append(f"poles not recovered: {a[0]} vs {den}")
        return Result(probs, str(case["poles"]))
    if m == "bare":
        c = api.full({"fs": case["fs"]})
        sig = api.make_signal(c)
        W = ref.analysis_frames(c, sig)
        if case["ex"] == "lpc":
            a, e = lpc(sig, case["fs"])
            probs = [x for i, w in enumerate(W) for x in check_lpc(w, 13, np.asarray(a)[i], float(np.asarray(e)[i].reshape(-1)[0]), f"frame {i}")]
        else:
            got = api.fn("lpcc")(sig, case["fs"])
            want = np.array([ref.lpc2lpcc(*ref.lpc_frame(w, 12)[:2], 13) for w in W])
            probs = util.collect(util.diff(got, want, rtol=1e-7, atol=1e-8, what="lpcc"))
        return Result(probs[:4], case["fs"])
    c = api.full(case)
    sig = api.make_signal(c)
    W = ref.analysis_frames(c, sig)
    if m == "level":        # the predictor does not depend on the level: compare with the frame raised to unit level
        a, e = api.call("lpc", sig, c)
        a = np.asarray(a)
        probs = []
        for i, w in enumerate(W):
            u = w / np.abs(w).max()
            wa, _, cond = ref.lpc_frame(u, c["order"] - 1)
            if not np.isfinite(a[i]).all():
                probs.append(f"frame {i}: {a[i]}")
            elif cond < 1e11 and np.abs(w).max() > 1e-145:
                probs += util.collect(util.diff(a[i], wa, rtol=1e-9 + 1e-14 * cond, atol=1e-14 * cond, what=f"coefficients of frame {i}"))
        return Result(probs[:4], util.digest(a), validated=len(W))
    if m == "mono":
        last, probs = None, []
        for order in range(1, 17):
            a, e = api.call("lpc", sig, dict(c, order=order))
            e = np.asarray(e).reshape(-1)
            if (e < 0).any():
                probs.append(f"negative error at order {order}")
            if last is not None and (e > last * (1 + 1e-9) + 1e-30).any():
                probs.append(f"prediction error rises from order {order - 1} to {order}")
            last = e
        return Result(probs[:3], util.digest(last), validated=16, execs=16)
    order = c["order"]
    if order > W.shape[1]:
        raise ModelSkip()
    if m == "lpc":
        a, e = api.call("lpc", sig, c)
        a, e = np.asarray(a), np.asarray(e)
        if a.shape != (len(W), order) or e.size != len(W):
            return Result([f"shapes {a.shape}, {e.shape}"], "shape")
        probs = [x for i, w in enumerate(W) for x in check_lpc(w, order, a[i], float(e[i].reshape(-1)[0]), f"frame {i}")]
        return Result(probs[:4], util.digest(a), validated=len(W))
    rows = []
    cond = ill = 0
    for w in W:
        a, e, k = ref.lpc_frame(w, order - 1)
        cond = max(cond, k)
        if e != 0:
            ill = max(ill, k * np.dot(w, w) / e)
        rows.append(ref.lpc2lpcc(a, e, order))
    if ill > 1e9:
        raise ModelSkip()
    want = np.array(rows)
    if c["norm"] == "mvn" and np.std(want) < 1e-9:
        raise ModelSkip()
    want = ref.post(want, dict(c, energy=False))
    got = api.call("lpcc", sig, c)
    return Result(util.collect(util.diff(got, want, rtol=1e-8, atol=1e-9 + 1e-13 * ill, what="lpcc")), util.digest(want), validated=len(W))
