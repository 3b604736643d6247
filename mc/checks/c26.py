"""Deltas: all rows over a small alphabet with all window sizes against the slope sum with clamped indices; row independence,
linearity and shape."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip

PID = "C26"


def spaces(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 7 if q else 9):
        out.append(core.tree(f"rows of {n}", [0.0, 1.0, -3.0, 0.5] if n < 6 else [0.0, 1.0, -3.0], n, "rows", base={"mode": "rows", "n": n}, minlen=n, chunk=128))
    out.append(core.product("matrices", {"shape": [[1, 1], [1, 9], [13, 1], [3, 20], [30, 13], [2, 100], [2, 500], [4, 1025], [300, 3]], "w": list(range(0, 32)) + [51, 101], "form": ["f8", "i8", "F", "T", "strided", "ro", "f4", "i2"], "seed": [1, 2]},
                            base={"mode": "mat"}))
    out.append(core.product("default window", {"shape": [[1, 9], [3, 20], [30, 13]]}, base={"mode": "bare"}))
    return out


def delta(x, w):
    h = w // 2
    x = np.asarray(x, float)
    n = x.shape[1]
    return np.stack([sum(k * x[:, min(max(t + k, 0), n - 1)] for k in range(-h, h + 1)) + 0 * x[:, 0] for t in range(n)], axis=1)


def run(case):
    f = api.fn("deltas")
    probs, n = [], 0
    if case["mode"] == "rows":
        x = np.array(case["rows"], float)
        for w in range(0, 12):
            got = np.asarray(f(x.copy(), w))
            n += 1
            d = util.diff(got, delta(x, w), atol=1e-10, what=f"deltas w={w}")
            if d:
                probs.append(d)
                continue
            i = len(x) // 2
            probs += util.collect(util.diff(f(x[i:i + 1].copy(), w), got[i:i + 1], atol=1e-10, what=f"row {i} alone, w={w}"))
            const = np.ptp(x, axis=1) == 0
            if np.abs(got[const]).sum() > 1e-9:
                probs.append("constant row has a slope")
        return Result(probs[:4], (case["n"], len(x)), validated=n * len(x), execs=2 * n)
    r, k = case["shape"]
    x = (util.lcg(r * k, case.get("seed", 1)) * 50).reshape(r, k).copy()
    if case["mode"] == "bare":
        return Result(util.collect(util.diff(f(x), delta(x, 9), rtol=1e-9, atol=1e-9, what="deltas")), (r, k))
    fm, w = case["form"], case["w"]
    tol = 1e-9
    if fm == "i8":
        x = np.round(x).astype(np.int64)
    elif fm == "i2":
        x = np.round(x * 600).astype(np.int16)
    elif fm == "F":
        x = np.asfortranarray(x)
    elif fm == "T":
        x = np.ascontiguousarray(x.T).T
    elif fm == "strided":
        x = np.repeat(np.repeat(x, 2, 0), 3, 1)[::2, ::3]
    elif fm == "ro":
        x.setflags(write=False)
    elif fm == "f4":
        x = x.astype(np.float32)
        tol = 1e-4
    keep = x.copy()
    got = np.asarray(f(x, w))
    want = delta(keep, w)
    probs += util.collect(util.diff(got, want, rtol=tol, atol=1e-9 if tol < 1e-5 else 1e-2, what=f"deltas w={w}"))
    if not np.array_equal(x, keep):
        probs.append("deltas changed its input")
    if not probs and fm in ("f8", "F", "T"):
        y = keep[::-1] * 0.7 + 1.3
        probs += util.collect(util.diff(f(2 * keep - 3 * y, w), 2 * want - 3 * np.asarray(f(np.ascontiguousarray(y), w)), rtol=1e-9, atol=1e-8, what="linearity"))
    return Result(probs[:4], util.digest(want), execs=2)
