"""PLP and RASTA-PLP: the parameter lattice of both extractors against the model, and the RASTA filter on all rows over a
small alphabet (every row independent, linear, against the difference equation)."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip
from .c08 import FS, WINS, SIGS

PID = "C20"


def ok(c):
    return c["order"] == "all" or c["order"] <= c["nfilts"]


def spaces(tier):
    q = tier == "quick"
    out = []
    for ex in ("plp", "rplp"):
        p = {"sig": SIGS + ["gap", "lead", "square", "impulse"], "len": [[4, 9], [1, 0], [2, -1], [12, 3]], "fs": FS, "win": WINS, "nfft": [256, 128, 255, 64, 512, 400],
             "nfilts": [24, 13, 16, 20, 26, 40], "order": [13, 1, 2, 3, 8, 12, "all"], "pre_emph": [False, True], "coeff": [0.97, 0.5, 0.0], "low": [0, 133.3, 300], "hf": [None, 0.5, 0.4, 0.25],
             "scale": ["constant", "ascendant", "descendant"], "lifter": [None, 0, 3, 0.7, 22, -7], "norm": [None, "mvn", "ms", "vn", "mn"],
             "conv": [None, "Tjomov", "Schroeder", "Terhardt", "Traunmueller"]}
        out.append(core.lattice(ex, p, 2, base={"ex": ex}, valid=ok))
        if True:
            p3 = {k: v[:3 if q else 4] for k, v in p.items()}
            p3["sig"] = ["noise1", "int16_noise2", "gap", "burst"]
            p3["nfft"] = [64, 128, 63]
            p3["order"] = [13, 1, 5, "all"]
            out.append(core.lattice(ex + " 3 deviations", p3, 3, base={"ex": ex}, valid=ok))
        out.append(api.sweep_ex(ex, {"ex": ex}, valid=ok))
        out.append(core.product("bare " + ex, {"fs": [16000, 8000], "sig": ["noise1", "int16_chirp"]}, base={"ex": ex, "bare": 1}))
    out.append(core.product("many frames", {"ex": ["plp", "rplp"], "len": api.MANY[:6] if q else api.MANY, "sig": ["noise1", "int16_noise2"], "norm": [None, "mvn"]}, base=api.many(pre_emph=False)))
    for n in (5, 6, 7) if q else (5, 6, 7, 8, 9):
        out.append(core.tree(f"rasta rows of {n}", [0.0, 1.0, -2.0] if n > 5 else [0.0, 1.0, -2.0, 0.25], n, "rows", base={"rasta": 1}, minlen=n, chunk=81))
    out.append(core.product("rasta matrices", {"shape": [[1, 5], [3, 5], [2, 24], [7, 40], [30, 26], [4, 128]], "seed": [1, 2, 3], "form": ["c", "F", "T", "strided", "int", "ro"]}, base={"rasta": 2}))
    return out


def run(case):
    if case.get("rasta"):
        f = api.fn("rasta_filter")
        probs = []
        if case["rasta"] == 1:
            x = np.array(case["rows"], float)
        else:
            r, k = case["shape"]
            x = util.lcg(r * k, case["seed"]).reshape(r, k) * 5
            x = {"c": lambda: x.copy(), "F": lambda: np.asfortranarray(x), "T": lambda: np.ascontiguousarray(x.T).T, "strided": lambda: np.repeat(np.repeat(x, 2, 0), 2, 1)[::2, ::2],
                 "int": lambda: np.round(x * 10).astype(np.int64), "ro": lambda: x.copy()}[case["form"]]()
            if case["form"] == "ro":
                x.setflags(write=False)
        keep = x.copy()
        got = np.asarray(f(x))
        want = ref.rasta(keep)
        probs += util.collect(util.diff(got, want, rtol=1e-10, atol=1e-12, what="rasta_filter"))
        if not np.array_equal(x, keep):
            probs.append("rasta_filter changed its input")
        if not probs:      # each row alone; reversed order; linear
            n = len(x)
            for i in sorted({0, n // 2, n - 1}):
                probs += util.collect(util.diff(f(x[i:i + 1]), got[i:i + 1], rtol=1e-10, atol=1e-12, what=f"row {i} alone"))
            probs += util.collect(util.diff(np.asarray(f(x[::-1]))[::-1], got, rtol=1e-10, atol=1e-12, what="rows reversed"))
            y = keep[::-1].astype(float)
            probs += util.collect(util.diff(f(2.5 * keep - 3 * y), 2.5 * got - 3 * np.asarray(f(y)), rtol=1e-9, atol=1e-10, what="linearity"))
        return Result(probs[:4], util.digest(want), validated=len(x) + 5, execs=7)
    ex = case["ex"]
    c = api.full(case)
    sig = api.make_signal(c)
    if case.get("bare"):
        c["pre_emph"] = False
    want, cond = ref.plp(c, sig, ex == "rplp")
    if cond > 1e10 or not np.isfinite(want).all():
        raise ModelSkip()
    if c["norm"] in ("mvn", "vn", "mn"):
        plain = ref.plp(dict(c, norm=None), sig, ex == "rplp")[0]
        if np.std(plain) < 1e-7 * np.abs(plain).max():
            raise ModelSkip()
    got = api.fn(ex)(sig, c["fs"]) if case.get("bare") else api.call(ex, sig, c)
    d = util.diff(got, want, rtol=2e-8 + 1e-14 * cond, atol=2e-8 + 1e-13 * cond, what=ex)
    return Result(util.collect(d), util.digest(want), validated=len(want))
