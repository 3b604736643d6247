"""Framing against direct slicing: every (rate, frame length, hop, signal length) of a small product, every dtype and
memory layout; aliasing is observed by writing to both sides."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result

PID = "C01"
FS = [1, 2, 8, 100, 8000, 11025, 16000, 22050, 44100, 48000]
DT = ["int8", "int16", "int32", "int64", "uint8", "uint16", "float16", "float32", "float64"]
LAY = util.LAYOUTS + ["col", "fcol", "list", "tuple"]


def spaces(tier):
    big = tier != "quick"
    lmax = 10 if not big else 16
    out = []
    sp = core.product("small", {"fs": FS, "L": list(range(1, lmax + 1)), "H": list(range(1, lmax + 1))},
                      base={"mode": "small"}, valid=lambda c: c["H"] <= c["L"])
    sp.n_states = sum(1 + 3 * c["H"] + 2 for c in sp.states)
    out.append(sp)
    out.append(core.product("representations", {"dtype": DT, "lay": LAY, "L": [1, 3, 4], "H": [1, 2, 3], "x": [0, 1, 2, 5]},
                            base={"mode": "rep"}, valid=lambda c: c["H"] <= c["L"]))
    wl = [0.02, 0.025, 0.03, 0.032, 0.0251, 0.05, 0.1, 0.01, 0.29, 0.0099]
    wh = [0.01, 0.005, 0.015, 0.008, 0.02, 0.025, 0.0077, 0.03, 0.05, 0.1, 0.29]
    out.append(core.product("audio", {"fs": FS[4:], "wl": wl, "wh": wh, "n": [4800, 4801, 4879, 16000, 15999, 30011],
                                      "dtype": ["int16", "float64"]}, base={"mode": "audio"}))
    out.append(core.product("long", {"fs": [16000, 44100], "wl": [0.025, 0.05], "wh": [0.01, 0.001], "n": [160000, 70001],
                                     "dtype": ["int16"]}, base={"mode": "audio"}))
    pw = sorted({(1 << k) + d for k in range(9, 19) for d in (-1, 0, 1)})
    out.append(core.product("lengths about powers of two", {"n": pw, "wl": [0.025, 0.256], "wh": [0.01, 0.0001, 0.016], "dtype": ["int16", "float64", "float32"]}, base={"mode": "audio", "fs": 10000},
                            valid=lambda c: c["n"] >= c["wl"] * 10000 and (c["wh"] > 0.001 or c["n"] <= 33000)))
    return out


def values(n, dtype):
    dt = np.dtype(dtype)
    k = np.arange(n)
    if dt.kind in "iu":
        return ((k * 7 + 3) % 101 + (0 if dt.kind == "u" else -50)).astype(dt)
    return (((k * 7 + 3) % 101 - 50) / 8.0).astype(dt)


def check(sig, x, fs, wl, wh, tag, alias=True):
    framing = api.fn("framing")
    probs = []
    if wl < wh:
        try:
            framing(sig, fs, wl, wh)
        except api.fn("ParameterError"):
            return probs
        except Exception as e:
            return [f"{tag}: win_len < win_hop raised {type(e).__name__}, not ParameterError"]
        return [f"{tag}: win_len {wl} < win_hop {wh} accepted"]
    want, L = ref.frames(x, fs, wl, wh)
    got, gl = framing(sig, fs, wl, wh)
    if int(gl) != L:
        probs.append(f"{tag}: frame length {gl}, expected {L}")
    g = np.asarray(got)
    if g.shape != want.shape:
        return probs + [f"{tag}: {g.shape} frames, expected {want.shape}"]
    if not np.array_equal(g, want):
        i = np.argwhere(g != want)[0]
        probs.append(f"{tag}: frame {i[0]} sample {i[1]} is {g[tuple(i)]}, expected {want[tuple(i)]}")
    if alias and isinstance(sig, np.ndarray):
        before = np.array(sig, copy=True)
        try:
            g[...] = 1
        except ValueError:
            pass
        if not np.array_equal(sig, before):
            probs.append(f"{tag}: writing to the frames changed the caller's signal")
        got2, _ = framing(sig, fs, wl, wh)
        snap = np.array(got2, copy=True)
        if sig.flags.writeable:
            sig[...] = 2
            if not np.array_equal(np.asarray(got2), snap):
                probs.append(f"{tag}: overwriting the signal changed earlier frames")
    return probs


def run(case):
    probs, n = [], 0
    if case["mode"] == "small":
        fs, L, H = case["fs"], case["L"], case["H"]
        wl, wh = L / fs, H / fs
        # int() truncation may lose a sample: the model does the same; a zero length is outside the domain
        l, h = int(wl * fs), int(wh * fs)
        if l < 1 or h < 1 or wl < wh:
            raise core.ModelSkip()
        for N in range(l, l + 3 * h + 3):
            x = values(N, "float64")
            probs += check(x.copy(), x, fs, wl, wh, f"fs={fs} L={L} H={H} N={N}")
            n += 1
        return Result(probs[:3], (fs, l, h), validated=n, execs=2 * n)
    if case["mode"] == "rep":
        L, H = case["L"], case["H"]
        N = L + 2 * H + case["x"]
        x = values(N, case["dtype"])
        sig = util.layout(x, case["lay"])
        probs = check(sig, x, 100, L / 100 + 1e-9, H / 100 + 1e-9, f"{case['dtype']}/{case['lay']} L={L} H={H} N={N}")
        return Result(probs, (N, L, H, case["dtype"]), execs=2)
    x = values(case["n"], case["dtype"])
    if case["wl"] >= case["wh"] and int(case["wl"] * case["fs"]) > case["n"]:
        raise core.ModelSkip()
    probs = check(x.copy(), x, case["fs"], case["wl"], case["wh"], f"fs={case['fs']} wl={case['wl']} wh={case['wh']} n={case['n']}")
    return Result(probs, (case["fs"], case["wl"], case["wh"], case["n"]))
