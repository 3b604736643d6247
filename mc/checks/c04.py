"""Mel, linear and inverse-mel banks: full product of bank parameters, every weight and centre against the model."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result

PID = "C04"


def spaces(tier):
    q = tier == "quick"
    P = {"nfilts": [24, 1, 2, 3, 7, 13, 20, 26, 40, 64, 128], "nfft": [512, 16, 64, 255, 256, 400, 511, 1024, 2048] + ([] if q else [4096, 1023, 8192, 31, 600]),
         "fs": [16000, 8000, 11025, 22050, 44100, 48000], "low": [0, 20, 133.3, 300, 1000] + ([] if q else [0.5, 64, 2000]),
         "hf": [None, 0.5, 0.25, 0.4, 0.2375] + ([] if q else [0.45, 0.1875, 0.49999])}
    out = []
    for kind in ("mel", "imel", "lin"):
        p = dict(P)
        if kind != "lin":
            p["conv"] = [None, "Lindsay"]
        out.append(core.product(kind, p, base={"kind": kind}, valid=ok))
    out.append(core.product("bare", {"kind": ["mel", "imel", "lin"], "how": ["none", "pos", "int_high"]}, base={"bare": 1}))
    return out


def ok(c):
    return c["low"] < (c["hf"] or 0.5) * c["fs"] * 0.8


def compare(kind, got, c, order=4):
    fb, cen, amb, elem = ref.bank(kind, c["nfilts"], c["nfft"], c["fs"], c["low"], c["high"], c["scale"], c.get("conv"), order)
    probs = []
    if not isinstance(got, tuple) or len(got) != 2:
        return ["the bank is not a pair (weights, centre frequencies)"], fb
    g = np.asarray(got[0])
    probs += util.collect(util.diff(g, fb, rtol=0, atol=2e-9, what=f"{kind} weights", mask=elem))
    probs += util.collect(util.diff(np.asarray(got[1], dtype=float), cen, rtol=1e-9, atol=1e-7, what=f"{kind} centres"))
    if g.size and (np.min(g) < 0 or np.max(g) > 1 + 1e-12):
        probs.append(f"{kind}: weights outside [0,1]: {np.min(g)}..{np.max(g)}")
    return probs, fb


def run(case):
    kind = case["kind"]
    if case.get("bare"):
        c = api.full({})
        f = api.fn(api.BANKFN[kind])
        if case["how"] == "none":
            got = f()
        elif case["how"] == "pos":
            c.update(nfilts=20, nfft=256, fs=8000, low=100, high=3000)
            got = f(20, 256, 8000, 100, 3000)
        else:
            c.update(high=4000)
            got = f(high_freq=4000)
        probs, fb = compare(kind, got, c)
        return Result(probs, (kind, case["how"]))
    c = api.full(case)
    got = api.build_bank(kind, c)
    probs, fb = compare(kind, got, c)
    return Result(probs, util.digest(fb))
