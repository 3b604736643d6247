"""Pre-emphasis, windowing and zero handling on all words over small alphabets, all window types and lengths."""
import itertools

import numpy as np

from .. import api, core, ref, util
from ..core import Result

PID = "C02"
COEF = [0, 0.5, 0.9, 0.95, 0.97, 1, -0.5, 2.0]
KINDS = ["hanning", "bartlet", "kaiser", "blackman", "hamming"]
ZV = [0.0, -0.0, 1.0, -1.0, np.finfo(float).eps, 1e-300, 5e-324, -1e-17, 3.5]


def spaces(tier):
    big = tier != "quick"
    out = []
    n = 5 if not big else 7
    sp = core.product("pre-emphasis words", {"coef": COEF, "len": list(range(1, n + 1)), "dtype": ["float64", "int16", "float32", "list"]},
                      base={"mode": "pe"})
    sp.n_states = sum(4 ** c["len"] for c in sp.states)
    sp.transitions = sp.n_states - 1
    out.append(sp)
    out.append(core.product("pre-emphasis signals", {"coef": COEF, "sig": ["noise1", "int16_noise2", "full16_noise4", "f32_noise3",
               "int32_noise9", "nyq16", "zeros", "dc16"], "n": [1, 2, 3, 400, 4097, 16000], "lay": ["c", "rev", "stride2", "ro"]},
               base={"mode": "pes"}))
    dense = [i / 50 for i in range(-60, 111)] + [1e-3, 1e-6, 1e-9, 1e-12, -1e-9, 1 - 1e-9, 1 + 1e-9, 0.999999, 10.0, 100, 1e6, 0.3333333333333333]
    out.append(core.product("every coefficient", {"coef": dense, "sig": ["noise1", "int16_noise2", "f32_noise3"], "n": [7, 400]}, base={"mode": "pes", "lay": "c"}))
    pw = sorted(set(range(1, 260)) | {(1 << k) + d for k in range(8, 19) for d in (-1, 0, 1)} | {48000, 80000, 100000, 160000, 441000})
    out.append(core.product("every length", {"n": pw, "sig": ["noise1", "int16_noise2"], "coef": [0.97, 0.5]}, base={"mode": "pes", "lay": "c"}))
    dl = sorted(set(range(1, 1300 if not big else 5000)) | {(1 << k) + d for k in range(10, 15) for d in (-1, 0, 1)})
    out.append(core.product("every window length", {"kind": KINDS, "n": dl}, base={"mode": "win", "rows": 2, "dtype": "float64"}))
    out.append(core.product("many frames", {"kind": KINDS, "rows": [64, 65, 128, 129, 256, 257, 512, 513, 1024, 1025, 2049, 4097], "n": [3, 32], "dtype": ["float64", "int16"]}, base={"mode": "win"}))
    out.append(core.product("one frame, real or complex", {"kind": KINDS, "n": list(range(1, 130)) + [400, 511, 512, 1024, 2048], "dtype": ["float64", "complex128"]}, base={"mode": "win", "rows": 0}))
    lens = list(range(1, 66)) + [80, 160, 199, 200, 240, 256, 320, 399, 400, 401, 441, 480, 512, 551, 640, 661, 705, 800, 882, 1024, 1102, 1200, 1323, 1411, 1440, 2205, 2400, 4096]
    out.append(core.product("windows", {"kind": KINDS, "n": lens, "rows": [1, 2, 5], "dtype": ["float64", "int16", "float32"]},
                            base={"mode": "win"}))
    sp = core.product("zero handling words", {"len": [0, 1, 2, 3, 4] + ([5] if big else []), "two_d": [0, 1]}, base={"mode": "zero"})
    sp.n_states = sum(len(ZV) ** c["len"] for c in sp.states)
    out.append(sp)
    return out


def run(case):
    m = case["mode"]
    probs = []
    if m == "pe":
        f = api.fn("pre_emphasis")
        k = 0
        for w in itertools.product([0, 1, -1, 2.5] if case["dtype"] != "int16" else [0, 1, -32768, 32767], repeat=case["len"]):
            x = list(w) if case["dtype"] == "list" else np.array(w, dtype=case["dtype"])
            snap = np.array(x, dtype=float)
            got = f(x, case["coef"])
            k += 1
            d = util.diff(got, ref.preemph(snap, case["coef"]), rtol=1e-12, atol=1e-12, what=f"pre_emphasis({list(w)}, {case['coef']})")
            if d:
                probs.append(d)
            if not np.array_equal(np.array(x, dtype=float), snap):
                probs.append("pre_emphasis changed its argument")
            if len(probs) > 2:
                break
        return Result(probs, (case["coef"], case["len"]), validated=k, execs=k)
    if m == "pes":
        x = util.layout(util.signal(case["sig"], case["n"]), case["lay"])
        want = ref.preemph(x, case["coef"])
        d = util.diff(api.fn("pre_emphasis")(x, case["coef"]), want, rtol=1e-12, atol=1e-12, what="pre_emphasis")
        return Result(util.collect(d), util.digest(want))
    if m == "win":
        n, r = case["n"], case["rows"]
        fr = (util.lcg(n * r, 3).reshape(r, n) * 1000) if r else util.lcg(n, 3)      # rows 0: a single one-dimensional frame
        if case["dtype"] == "complex128":
            fr = fr * np.exp(0.7j * np.arange(n))
        fr = fr.astype(case["dtype"])
        want = fr * ref.window(n, case["kind"])
        snap = fr.copy()
        got = api.fn("windowing")(fr, n, case["kind"])
        d = util.diff(got, want, rtol=1e-12, atol=1e-9, what=f"windowing({case['kind']}, {n})")
        if not np.array_equal(fr, snap):
            probs.append("windowing changed its argument")
        default = util.diff(api.fn("windowing")(fr, n), fr * ref.window(n, "hamming"), rtol=1e-12, atol=1e-9, what="default window")
        return Result(probs + util.collect(d, default), (case["kind"], n), execs=2)
    f = api.fn("zero_handling")
    k = 0
    for w in itertools.product(range(len(ZV)), repeat=case["len"]):
        x = np.array([ZV[i] for i in w], dtype=float)
        if case["two_d"]:
            x = x.reshape(1, -1) if len(w) % 2 else x.reshape(-1, 2) if len(w) else x.reshape(0, 2)
        snap = x.copy()
        got = np.asarray(f(x))
        k += 1
        want = snap.copy()
        want[snap == 0] = np.finfo(float).eps
        if got.shape != want.shape or not np.array_equal(got, want):
            probs.append(f"zero_handling({snap.tolist()}) = {got.tolist()}")
        if not np.array_equal(x, snap):
            probs.append("zero_handling changed its argument")
        if len(probs) > 2:
            break
    big = util.lcg(5000, 5).copy()
    big[::7] = 0
    for xi in (big, big.reshape(100, 50), big.reshape(50, 100).T, big.reshape(10, 50, 10), big[::3], big[::-1], np.zeros((3, 4)), np.array([0, 3, -2, 0]), np.array([[0, 1], [2, 0]], dtype=np.int16), np.array([0.0, 2.0], dtype=np.float32)):
        got = np.asarray(f(xi))
        want = np.where(xi == 0, np.finfo(float).eps, xi.astype(float))
        if not np.array_equal(got, want):
            probs.append(f"zero_handling({xi.tolist()}) = {got.tolist()}")
    return Result(probs, (case["len"], case["two_d"]), validated=k, execs=k)
