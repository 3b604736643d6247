"""PNCC: every recursive stage on all input histories over a small alphabet (and its invariants), the stages' spectral
smoothing on all channel words, and the extractor on the parameter lattice, against the published recurrences."""
import importlib

import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip
from .c08 import FS, WINS, SIGS, LENS

PID = "C21"
V = [0.0, 1.0, 4.0, 2.0, 0.3]


def spaces(tier):
    q = tier == "quick"
    out = []
    N = 6 if q else 8
    for st in ("medium", "asym", "tmask", "ansm"):
        for n in range(1, N + 1):
            out.append(core.tree(f"{st} histories of {n} frames", V if n < 6 or not q else [0.0, 1.0, 4.0, 2.0], n, "words", base={"stage": st}, minlen=n, chunk=256))
    out.append(core.tree("mean power, 1 channel", V, 6 if q else 8, "words", base={"stage": "mean", "L": 1}, minlen=1, chunk=64))
    sp = core.tree("mean power, 2 channels", [0.0, 2.0, 0.3], 6 if q else 8, "words", base={"stage": "mean", "L": 2}, minlen=2, chunk=64)
    sp.states = [dict(c, words=[w for w in c["words"] if len(w) % 2 == 0]) for c in sp.states]
    out.append(sp)
    for n in (1, 2, 3, 5, 6) if q else (1, 2, 3, 5, 6, 7, 8):
        out.append(core.tree(f"weight smoothing, {n} channels", [0.0, 1.0, 3.0, 0.25] if n < 6 else [0.0, 1.0, 3.0], n, "words", base={"stage": "smooth"}, minlen=n, chunk=256))
    out.append(core.product("parameters of the stages", {"stage": ["medium", "asym", "tmask", "smooth", "mean", "ansm"], "par": [0, 1, 2, 3], "shape": [[9, 5], [1, 6], [20, 13], [3, 1], [40, 24]], "seed": [1, 2]},
                            base={"big": 1}))
    p = {"sig": SIGS + ["gap", "lead", "trail"], "len": LENS, "fs": FS, "win": WINS, "nfft": [512, 256, 400, 511, 1024, 64], "nfilts": [24, 13, 14, 20, 40, 64], "num_ceps": [13, 1, 2, 12],
         "pre_emph": [True, False], "coeff": [0.97, 0.5, 0.0], "low": [0, 20, 133.3, 300], "hf": [None, 0.5, 0.4, 0.25], "scale": ["constant", "ascendant", "descendant"], "dct": [2, 1, 3, 4],
         "lifter": [None, 0, 3, 0.7, 22, -7], "norm": [None, "mvn", "ms", "vn", "mn"], "power": [2, 1, 3]}
    ok = lambda c: c["num_ceps"] == "all" or c["num_ceps"] <= c["nfilts"]
    p["num_ceps"].append("all")
    out.append(core.lattice("pncc", p, 2 if q else 3, base={"ex": "pncc"}, valid=ok))
    p3 = {k: v[:3] for k, v in p.items()}
    p3.update(sig=["noise1", "int16_noise2", "gap", "burst"], len=[[4, 9], [1, 0], [9, 1]], nfft=[128, 127, 256], nfilts=[16, 13, 26], num_ceps=[13, 1, "all"], lifter=[None, 3, -7], dct=[2, 1, 3, 4])
    out.append(core.lattice("pncc, three deviations", p3, 3 if q else 4, base={"ex": "pncc"}, valid=ok))
    out.append(api.sweep_ex("pncc", valid=ok))
    out.append(core.product("many frames", {"len": api.MANY, "sig": ["noise1", "int16_noise2", "burst"], "norm": [None, "mvn"]}, base=api.many(ex="pncc")))
    out.append(core.product("bare pncc", {"fs": [16000, 8000, 44100], "sig": ["noise1", "int16_chirp", "burst"]}, base={"ex": "pncc", "bare": 1}))
    return out


FN = {"medium": "medium_time_power_calculation", "asym": "asymmetric_lowpass_filtering", "tmask": "temporal_masking", "smooth": "weight_smoothing", "mean": "mean_power_normalization",
      "ansm": "asymmetric_noise_suppression_with_temporal_masking"}


def stage(name):
    f = getattr(importlib.import_module("spafe.features.pncc"), FN[name], None)
    if f is None:
        raise ModelSkip()
    return f


def cmp(got, want, what):
    return util.collect(util.diff(got, want, rtol=1e-10, atol=1e-13, what=what))


def run(case):
    if case.get("ex") == "pncc":
        c = api.full(case)
        sig = api.make_signal(c)
        want = ref.pncc(c, sig)
        if c["norm"] and len(want) == 1 and c["num_ceps"] == 1:
            raise ModelSkip()
        got = api.fn("pncc")(sig, c["fs"]) if case.get("bare") else api.call("pncc", sig, c)
        return Result(util.collect(util.diff(got, want, rtol=2e-8, atol=2e-8, what="pncc")), util.digest(want), validated=len(want))
    st = case["stage"]
    f = stage(st)
    if case.get("big"):
        r, k = case["shape"]
        x = np.abs(util.lcg(r * k, case["seed"])).reshape(r, k) ** 2 * 10 + 0.01
        x.setflags(write=False)
        i = case["par"]
        if st == "medium":
            M = (2, 0, 1, 3)[i]
            probs = cmp(f(x, M), ref.medium_time(x, M), st) + (cmp(f(x), ref.medium_time(x), st) if i == 0 else [])
        elif st == "asym":
            la, lb = ((0.999, 0.5), (0.9, 0.1), (0.5, 0.999), (0.0, 1.0))[i]
            probs = cmp(f(x, la, lb), ref.asym_lp(x, la, lb), st)
        elif st == "tmask":
            la, mu = ((0.85, 0.2), (0.5, 0.9), (0.99, 0.01), (0.3, 0.0))[i]
            probs = cmp(f(x, la, mu), ref.tmask(x, la, mu), st)
        elif st == "smooth":
            y = x[::-1, ::-1] + 0.1
            N = (4, 0, 1, 9)[i]
            probs = cmp(f(x, y, nfilts=k, N=N), ref.wsmooth(x, y, N), st)
        elif st == "mean":
            la, kk = ((0.999, 1), (0.5, 1), (0.9, 3), (0.0, 2))[i]
            probs = cmp(f(x, lam_myu=la, nfilts=k, k=kk), ref.meanpow(x, la, kk), st)
        else:
            t = (0, 0.1, 0.5, -0.2)[i]
            if np.abs(x - ref.asym_lp(x) - t).min() < 1e-9:
                raise ModelSkip()
            probs = cmp(f(x, t), ref.ansm(x, t), st)
        return Result(probs, (st, r, k, i))
    words = case["words"]
    if not words:
        raise ModelSkip()
    probs = []
    if st == "mean":
        L = case["L"]
        for w in words:
            x = np.array(w, float).reshape(-1, L)
            probs += cmp(f(x, nfilts=L), ref.meanpow(x), f"mean power of {w}")
    elif st == "smooth":
        R = np.array(words, float)
        Q = np.roll(R, 1, axis=1)[:, ::-1] * 0.5 + 0.2
        Q[Q == 0.2] = 0.0       # empty bands
        R = np.where(Q == 0, 0.0, R)
        probs += cmp(f(R.copy(), Q.copy(), nfilts=R.shape[1]), ref.wsmooth(R, Q), "weight smoothing")
        probs += cmp(f(R.copy(), Q.copy(), nfilts=R.shape[1], N=1), ref.wsmooth(R, Q, 1), "weight smoothing N=1")
    else:
        X = np.array(words, float).T.copy()        # one history per column
        keep = X.copy()
        got = np.asarray(f(X))
        want = {"medium": ref.medium_time, "asym": ref.asym_lp, "tmask": ref.tmask, "ansm": ref.ansm}[st](X)
        probs += cmp(got, want, st)
        if not np.array_equal(X, keep):
            probs.append(f"{st} changed its input")
        if st in ("asym", "tmask"):       # values exactly at the decision threshold (dyadic factors: no rounding)
            probs += cmp(f(X.copy(), 0.5, 0.25), {"asym": ref.asym_lp, "tmask": ref.tmask}[st](X, 0.5, 0.25), st + " with factors 0.5, 0.25")
        if st == "asym" and not probs and (got > np.maximum.accumulate(X, axis=0) + 1e-12).any():
            probs.append("the low-pass exceeds the running maximum of its input")
        if st == "medium" and not probs:
            probs += cmp(f(X[::-1]), got[::-1], "medium-time power of the reversed history")
    return Result(probs[:4], (st, len(words[0])), validated=len(words), execs=1)
