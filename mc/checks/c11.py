"""Post-processing: the stand-alone liftering and normalisation on all small matrices over a value alphabet, and every
extractor with every (energy, lifter, normalisation) combination against the model's post-processing of its own plain result."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip
from .c08 import FS, WINS

PID = "C11"
LIFT = [None, 0, 1, 2, 3, 0.7, 10, 10.5, 11, 22, -1, -2, -7, -22]
NORM = [None, "mvn", "ms", "vn", "mn"]
VALS = [0.0, 1.0, -1.0, 3.5]
EXT = api.FBCC + ["pncc", "cqcc", "lpcc", "plp", "rplp"]


def spaces(tier):
    q = tier == "quick"
    out = []
    shapes = [[1, 1], [1, 2], [2, 1], [2, 2], [1, 4], [4, 1], [3, 2]] + ([] if q else [[2, 3], [1, 6], [7, 1], [4, 2]])
    for s in shapes:
        n = s[0] * s[1]
        vals = VALS if n <= 4 or not q else [0.0, 1.0, -2.0]
        out.append(core.tree(f"matrices {s[0]}x{s[1]}", vals, n, "mats", base={"mode": "mat", "shape": s}, minlen=n, chunk=64))
    out.append(core.product("wide matrices", {"shape": [[3, 13], [1, 13], [5, 2], [20, 25], [4, 40], [50, 1], [2, 81], [1, 140], [3, 300]], "dtype": ["f8", "f4", "i4", "F", "T"], "seed": [1, 2, 3]},
                            base={"mode": "wide"}))
    for ex in EXT:
        p = {"sig": ["noise1", "int16_noise2", "burst", "voiced", "loud_noise5"], "fs": FS[:4], "nfft": [256, 255, 512], "win": WINS[:5],
             "nfilts": [20, 26, 13], "num_ceps": [13, 1, 2, 12, "all"], "pre_emph": [True, False], "len": [[6, 9], [2, 0], [17, 1]], "order": [13, 3, 8]}
        if ex in ("bfcc", "plp", "rplp"):
            p["nfft"] = [128, 255, 64]
        base = {"ex": ex, "mode": "ex"}
        if ex == "cqcc":
            base.update(api.CQT_DEFAULT, f0=480, bpo=12)
            p["nfft"] = [512, 256]
            p["ratio"] = [1.0, 0.5, 1.5]
        if ex not in ("lpcc", "plp", "rplp"):
            p.pop("order")
        else:
            p.pop("num_ceps")
        if ex in ("lpcc", "cqcc"):
            p.pop("nfilts")
        if ex not in ("lpcc", "plp", "rplp"):
            p["dct"] = [2, 1, 3, 4]
        dense = dict(base, mode="dense", nfft=128 if ex != "cqcc" else 512, fs=8000, len=[3, 5], nfilts=20, order=13)
        sp = core.product(ex + ", every lifter", {"lifts": [api.DENSE["lifter"][i:i + 10] for i in range(0, len(api.DENSE["lifter"]), 10)], "sig": ["noise1", "loud_noise5"]}, base=dense)
        sp.n_states = 2 * len(api.DENSE["lifter"])
        out.append(sp)
        out.append(api.sweep_ex(ex, dict(base, mode="ex", few=1, len=[3, 5]), drop=("lifter", "norm", "energy", "sig")))
        out.append(core.product(ex + ", many frames", {"len": api.MANY[:6], "few": [1]}, base=api.many(base) if ex != "cqcc" else api.many(base, f0=1600, octaves=2, num_ceps=5)))
        out.append(core.lattice(ex, p, (1 if ex in ("cqcc", "pncc", "bfcc", "plp", "rplp", "lpcc") else 2) if q else (2 if ex in ("cqcc", "pncc", "bfcc", "plp", "rplp") else 3), base=base))
    return out


def check_matrix(x, probs):
    n = 0
    lift, norm = api.fn("lifter_ceps"), api.fn("normalize_ceps")
    for l in LIFT if x.size < 12 else api.DENSE["lifter"]:
        if l is None:
            continue
        y = x.copy()
        d = util.diff(lift(y, l), ref.lifter(x, l), rtol=1e-10, what=f"lifter_ceps lift={l} of {x.tolist() if x.size < 12 else x.shape}")
        n += 1
        if d:
            probs.append(d)
        if not np.array_equal(y, x):
            probs.append("lifter_ceps changed its argument")
    xf = np.asarray(x, float)
    ok = np.std(xf) > 1e-9 * (np.abs(xf).max() + 1e-300)
    for k in NORM[1:]:
        if not ok and k != "ms":
            continue
        y = x.copy()
        d = util.diff(norm(y, k), ref.normalize(xf, k), rtol=2e-6 if x.dtype == np.float32 else 1e-10, atol=1e-6 if x.dtype == np.float32 else 1e-12,
                      what=f"normalize_ceps {k} of {x.tolist() if x.size < 12 else x.shape}")
        n += 1
        if d:
            probs.append(d)
        if not np.array_equal(y, x):
            probs.append("normalize_ceps changed its argument")
    return n


def run(case):
    probs = []
    if case["mode"] == "mat":
        n = 0
        for m in case["mats"]:
            n += check_matrix(np.array(m).reshape(case["shape"]), probs)
            if probs:
                break
        return Result(probs[:4], (tuple(case["shape"]), n), validated=n, execs=n)
    if case["mode"] == "wide":
        r, k = case["shape"]
        x = (util.lcg(r * k, case["seed"]) * 40).reshape(r, k).copy()
        x = {"f8": lambda: x, "f4": lambda: x.astype(np.float32), "i4": lambda: np.round(x).astype(np.int64), "F": lambda: np.asfortranarray(x),
             "T": lambda: np.ascontiguousarray(x.T).T}[case["dtype"]]()
        if case["dtype"] == "f4":        # single precision: only normalisation precision matters, liftering promotes
            x = np.round(x * 4).astype(np.float32)
        n = check_matrix(x, probs)
        return Result(probs[:4], (r, k, case["dtype"]), validated=n, execs=n)
    ex = case["ex"]
    c = api.full(case)
    sig = api.make_signal(c)
    k = c["order"] if ex in ("lpcc", "plp", "rplp") else c["num_ceps"]
    if k > c["nfilts"] and ex not in ("lpcc", "cqcc"):
        raise ModelSkip()
    execs = 0
    S = None
    if ex in api.FBCC:
        S = np.abs(ref.half_spectrum(ref.analysis_frames(c, sig), c["nfft"]))
    plain = np.asarray(api.call(ex, sig, dict(c, energy=False, lifter=None, norm=None)))
    for e in ((False, True) if ex in api.FBCC else (False,)):
        en = ref.post(plain, dict(c, energy=e, lifter=None, norm=None), S)
        for l in [None] + case["lifts"] if case["mode"] == "dense" else [None, 3, -7] if case.get("few") else LIFT:
            li = ref.lifter(en, l) if l is not None else en
            for nm in NORM:
                if nm and np.std(li) <= 1e-9 * np.abs(li).max():
                    continue
                if (l is None) + (nm is None) + (not e) == 3:
                    continue
                if l not in (None, 0.7, 3, -7) and nm not in (None, "mvn") or case.get("few") and nm not in (None, "mvn", "mn"):
                    continue
                want = ref.normalize(li, nm) if nm else li
                got = api.call(ex, sig, dict(c, energy=e, lifter=l, norm=nm))
                execs += 1
                d = util.diff(got, want, rtol=1e-9, atol=1e-10, what=f"{ex} energy={e} lifter={l} normalize={nm}")
                if d:
                    probs.append(d)
    return Result(probs[:4], util.digest(plain), validated=execs, execs=execs + 1)
