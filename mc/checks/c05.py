"""Bark and gammatone banks: full product of bank parameters against the filter definitions."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result
from .c04 import compare, ok

PID = "C05"


def spaces(tier):
    q = tier == "quick"
    out = [core.product("gammatone", {"nfilts": [24, 1, 2, 3, 7, 13, 20, 26, 40, 64, 128],
                                      "nfft": [512, 16, 64, 255, 256, 400, 511, 1024, 2048] + ([] if q else [4096, 1023, 8192]),
                                      "fs": [16000, 8000, 11025, 22050, 44100, 48000], "low": [0, 20, 133.3, 300, 1000],
                                      "hf": [None, 0.5, 0.25, 0.4, 0.2375], "conv": [None, "Glasberg"]}, base={"kind": "gam"}, valid=ok)]
    out.append(core.lattice("gammatone, exponent of the bandwidths", {"order": [4, 1, 2, 3, 5, 8], "nfilts": [24, 1, 13, 64], "nfft": [512, 255, 1024], "fs": [16000, 8000, 44100], "low": [0, 300], "hf": [None, 0.4]}, 3 if q else 6,
                            base={"kind": "gam", "conv": None}, valid=ok))
    bark = {"nfilts": [24, 1, 2, 5, 13, 26], "nfft": [64, 16, 33, 128, 255] if q else [64, 16, 33, 128, 255, 512, 1024],
            "fs": [16000, 8000, 11025, 44100], "low": [0, 20, 133.3, 300], "hf": [None, 0.25, 0.4, 0.2375],
            "conv": [None, "Tjomov", "Schroeder", "Terhardt", "Traunmueller", "Zwicker"]}
    vb = lambda c: ok(c) and not (c["conv"] == "Zwicker" and c["low"] == 0)
    out.append(core.product("bark", bark, base={"kind": "bark"}, valid=vb))
    big = {"nfilts": [24, 40, 64, 128], "nfft": [512, 400, 511, 1024, 2048], "fs": [16000, 22050, 48000], "low": [0, 300], "hf": [None, 0.4]}
    out.append(core.lattice("bark-large", big, 2 if q else 5, base={"kind": "bark", "conv": None}, valid=vb))
    sp = core.product("critical band curve", {"fc": [0.0, 1.0, 5.5, 12.0, 20.0]}, base={"fm": 1})
    sp.n_states = 5 * 1097
    out.append(sp)
    out.append(core.product("bare", {"kind": ["bark", "gam"], "how": ["none", "pos", "int_high"]}, base={"bare": 1}))
    return out


def run(case):
    if case.get("fm"):
        try:
            from spafe.fbanks.bark_fbanks import Fm
        except ImportError:
            raise core.ModelSkip()
        probs, n = [], 0
        for d in [-1.3, -0.5, 0.5, 2.5, -1.25, 0.0, -2.0, 3.0]:        # the end points themselves
            w = 0 if d < -1.3 or d > 2.5 else 10 ** (2.5 * (d + 0.5)) if d <= -0.5 else 1 if d < 0.5 else 10 ** (0.5 - d)
            for g in (Fm(d, 0.0), Fm(0.0, -d)):
                n += 1
                if not abs(g - w) < 1e-9:
                    probs.append(f"Fm at distance {d} exactly: {g}, expected {w}")
        near = [b + s * e for b in (-1.3, -0.5, 0.5, 2.5) for s in (-1, 1) for e in (1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 3e-4, 1e-3, 3e-3, 0.01, 0.03)]      # both sides of the end points
        for d in near + list(np.linspace(-2.0, 3.0, 1001) + 1e-6):
            w = 0 if d < -1.3 or d > 2.5 else 10 ** (2.5 * (d + 0.5)) if d <= -0.5 else 1 if d < 0.5 else 10 ** (0.5 - d)
            g = Fm(case["fc"] + d, case["fc"])
            n += 1
            if not abs(g - w) < 1e-9:
                probs.append(f"Fm at distance {d}: {g}, expected {w}")
        return Result(probs[:3], case["fc"], validated=n, execs=n)
    kind = case["kind"]
    if case.get("bare"):
        c = api.full({})
        f = api.fn(api.BANKFN[kind])
        if case["how"] == "none":
            got = f()
        elif case["how"] == "pos":
            c.update(nfilts=20, nfft=256, fs=8000, low=100, high=3000)
            got = f(20, 256, 8000, 100, 3000)
        else:
            c.update(high=4000)
            got = f(high_freq=4000)
        return Result(compare(kind, got, c)[0], (kind, case["how"]))
    c = api.full(case)
    got = api.build_bank(kind, c, **({"order": case["order"]} if "order" in case else {}))
    probs, fb = compare(kind, got, c, case.get("order", 4))
    cen = np.asarray(got[1], float)
    if not (np.diff(cen) > 0).all():
        probs.append("centre frequencies not increasing")
    if kind == "gam" and np.abs(np.max(np.asarray(got[0]), axis=1) - 1).max() > 1e-9:
        probs.append("gammatone row peak is not one")
    return Result(probs, util.digest(fb))
