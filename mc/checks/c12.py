"""Supplied filter banks: the matching bank against none over the parameter lattice, and arbitrary matrices (noise, reversed,
permuted, Fortran-ordered, read-only, integer, single weights) against the model with exactly that matrix."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip

PID = "C12"
SPECS = {"mel_spectrogram": "mel", "linear_spectrogram": "lin", "bark_spectrogram": "bark", "erb_spectrogram": "gam"}
EXT = api.FBCC + ["pncc", "plp", "rplp"] + list(SPECS)
MATS = ["noise", "reversed", "F", "ro", "int", "bool_rows", "tiny", "big", "f4", "strided", "other_kind", "unit_rows", "desc"]


def kind_of(ex):
    return SPECS.get(ex) or ref.BANK_OF[ex]


def spaces(tier):
    q = tier == "quick"
    out = []
    for ex in EXT:
        bark = kind_of(ex) == "bark"
        p = {"nfilts": [20, 13, 26, 40], "nfft": [128, 255, 512] if not bark else [64, 127, 128], "fs": [16000, 8000, 22050], "low": [0, 133.3, 300],
             "hf": [None, 0.5, 0.4, 0.25], "scale": ["constant", "ascendant", "descendant"], "sig": ["noise1", "int16_noise2"], "pre_emph": [True, False]}
        if kind_of(ex) in ("mel", "imel"):
            p["conv"] = [None, "Lindsay"]
        if bark:
            p["conv"] = [None, "Tjomov", "Traunmueller"]
        if ex in api.FBCC:
            p["energy"] = [False, True]
            p["num_ceps"] = [13, 5]
        out.append(core.lattice("matching bank " + ex, p, 2 if q else 4, base={"ex": ex, "mode": "same", "len": [4, 9]}))
        out.append(api.sweep_ex(ex, {"mode": "same", "len": [3, 9]}, tag=", matching bank"))
        out.append(api.sweep_ex(ex, {"mode": "mat", "mat": "noise", "len": [3, 9]}, tag=", supplied matrix"))
        p2 = {"mat": MATS, "nfilts": [20, 14, 26], "nfft": [128, 255, 512] if not bark else [64, 127], "scale": ["constant", "ascendant", "descendant"], "low": [0, 300],
              "hf": [None, 0.4], "pre_emph": [True, False], "sig": ["noise1", "int16_noise2"], "fs": [16000, 8000]}
        if ex in api.FBCC:
            p2.update(energy=[False, True], num_ceps=[13, 5], dct=[2, 3], lifter=[None, 3], norm=[None, "mvn"])
        if ex in SPECS or ex == "plp":
            p2["mat"] = MATS + ["signed", "zero_rows", "zero"]
        elif ex in api.FBCC and ex != "psrcc":
            p2["mat"] = MATS + ["zero_rows", "zero"]
        out.append(core.lattice("supplied matrix " + ex, p2, 3 if q else 4, base={"ex": ex, "mode": "mat", "len": [4, 9]}))
        if ex in SPECS or ex in api.FBCC:
            # a bank with another number of rows than nfilts: used as given
            out.append(core.product("other row count " + ex, {"rows": [15, 30, 64], "nfilts": [14, 20], "scale": ["constant", "ascendant"], "mat": ["noise", "F", "int"]},
                                    base={"ex": ex, "mode": "mat", "nfft": 128, "len": [3, 1], "num_ceps": 13}))
    return out


def matrix(case, c, ex):
    n, k = case.get("rows", c["nfilts"]), c["nfft"] // 2 + 1
    x = (util.lcg(n * k, 12).reshape(n, k) + 1.2).copy()
    m = case["mat"]
    if m == "reversed":
        return x[::-1]
    if m == "F":
        return np.asfortranarray(x)
    if m == "ro":
        x.setflags(write=False)
        return x
    if m == "int":
        return np.round(x * 3 + 1).astype(np.int64)
    if m == "bool_rows":
        y = np.zeros((n, k))
        for i in range(n):
            y[i, (i * 3) % k:(i * 3) % k + 4] = 1
        return y
    if m == "tiny":
        return x * 1e-6
    if m == "big":
        return x * 1e6
    if m == "f4":
        return np.round(x * 1024).astype(np.float32) / np.float32(1024)
    if m == "strided":
        y = np.zeros((2 * n, 2 * k))
        y[::2, ::2] = x
        return y[::2, ::2]
    if m == "other_kind":
        return np.array(ref.bank("lin", n, c["nfft"], c["fs"], 50, c["fs"] * 0.45)[0]) + 0.01
    if m == "signed":
        return x - 1.2
    if m == "zero":
        return np.zeros((n, k))
    if m == "zero_rows":
        x[1::3] = 0
        return x
    if m == "unit_rows":
        return x / x.sum(axis=1, keepdims=True)
    if m == "desc":
        return x * (np.arange(n, 0, -1) / n)[:, None]
    return x


def invoke(ex, sig, c, fb):
    if ex in SPECS:
        return api.call_spec(SPECS[ex], sig, c, fb)[0]
    return api.call(ex, sig, c, fb)


def run(case):
    ex = case["ex"]
    c = api.full(case)
    if ex not in SPECS and max(c["num_ceps"], c["order"] if ex in ("plp", "rplp") else 0) > c["nfilts"]:
        raise ModelSkip()
    sig = api.make_signal(c)
    if case["mode"] == "same":
        fb = np.asarray(api.build_bank(kind_of(ex), c)[0])
        if ex == "psrcc" and (np.abs(fb).max(axis=1) == 0).any():
            raise ModelSkip()
        keep = fb.copy()
        a = np.asarray(invoke(ex, sig, c, fb))
        b = np.asarray(invoke(ex, sig, c, None))
        probs = util.collect(util.diff(a, b, rtol=1e-9, atol=1e-12 if ex not in SPECS else 0, what=f"{ex} with its own bank supplied vs none"))
        if not np.array_equal(fb, keep):
            probs.append("the supplied bank was modified")
        return Result(probs, util.digest(a), execs=3)
    fb = matrix(case, c, ex)
    keep = np.array(fb, copy=True)
    cm = 0.0
    if ex in SPECS:
        want = ref.spectrogram(SPECS[ex], c, sig, keep)[0]
    elif ex in ("plp", "rplp"):
        want, cond = ref.plp(c, sig, ex == "rplp", keep)
        if cond > 1e10:
            raise ModelSkip()
        cm = 1e-13 * cond
    elif ex == "pncc":
        want = ref.pncc(c, sig, keep)
    else:
        want = ref.fbcc(ex, c, sig, keep)
    got = invoke(ex, sig, c, fb)
    probs = util.collect(util.diff(got, want, rtol=2e-8, atol=(2e-8 if ex not in SPECS else 0) + cm, what=f"{ex} with supplied bank {case['mat']}"))
    if not np.array_equal(fb, keep):
        probs.append("the supplied bank was modified")
    return Result(probs, util.digest(want), validated=len(want))
