"""Scaling option: every bank type and configuration with every scale against its own constant bank, and every extractor
and spectrogram with every scale against the model."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip

PID = "C06"
KINDS = ["mel", "imel", "lin", "bark", "gam"]
EXT = api.FBCC + ["pncc", "plp", "rplp"]
SC = ["ascendant", "descendant", "constant"]


def spaces(tier):
    q = tier == "quick"
    out = []
    for kind in KINDS:
        p = {"scale": SC, "nfilts": [24, 1, 2, 3, 13, 26] + ([40, 64, 128] if kind != "bark" else []),
             "nfft": [128, 64, 255] + ([512, 400, 1024] if kind != "bark" or not q else []), "fs": [16000, 8000, 44100],
             "low": [0, 133.3, 300], "hf": [None, 0.25, 0.4]}
        if kind in ("mel", "imel"):
            p["conv"] = [None, "Lindsay"]
        if kind == "bark":
            p["conv"] = [None, "Traunmueller"]
        out.append(core.product("bank " + kind, p, base={"kind": kind, "mode": "bank"}))
        for sc in SC[:2]:
            out.append(api.sweeps(f"{sc} {kind} bank", ["nfilts", "nfft", "fs", "low", "hf"], {"kind": kind, "mode": "bank", "scale": sc}, kind == "bark"))
            if kind != "imel":
                out.append(api.sweeps(f"{sc} {kind} spectrogram", ["nfilts", "nfft", "fs", "low", "hf", "coeff", "win", "len", "sig"], {"kind": kind, "mode": "spec", "scale": sc, "len": [3, 9]}, kind == "bark"))
    for ex in EXT:
        p = {"scale": SC[:2], "nfilts": [20, 13, 26, 40], "nfft": [256, 255, 512], "fs": [16000, 8000, 22050], "low": [0, 300], "hf": [None, 0.4],
             "num_ceps": [13, 5], "pre_emph": [True, False], "energy": [False, True], "dct": [2, 3], "sig": ["noise1", "int16_noise2", "chirp"]}
        if ex in ("plp", "rplp", "pncc"):
            p.pop("energy"), p.pop("dct"), p.pop("num_ceps")
        out.append(core.lattice("extractor " + ex, p, 2 if q else 4, base={"ex": ex, "mode": "ex"}))
        for sc in SC[:2]:
            out.append(api.sweep_ex(ex, {"mode": "ex", "scale": sc, "len": [3, 9]}, drop=("scale", "norm"), tag=" " + sc))
        out.append(core.product("extractor3 " + ex, {"scale": SC, "nfilts": [20, 26], "low": [0, 300], "hf": [None, 0.4]}, base={"ex": ex, "mode": "ex", "nfft": 256}))
    for kind in ("mel", "lin", "bark", "gam"):
        out.append(core.product("spectrogram " + kind, {"scale": SC, "nfilts": [24, 13, 40], "nfft": [256, 512], "fs": [16000, 8000], "low": [0, 300],
                                "hf": [None, 0.4], "pre_emph": [True, False]}, base={"kind": kind, "mode": "spec"}))
    sp = core.product("scale vector", {"nfilts": list(range(1, 130)), "scale": SC}, base={"mode": "vec"})
    out.append(sp)
    return out


def run(case):
    c = api.full(case)
    m = case["mode"]
    if m == "vec":
        n = case["nfilts"]
        got = api.fn("scale_fbank")(case["scale"], n)
        want = ref.scale_vec(case["scale"], np.arange(n)).reshape(n, 1)
        return Result(util.collect(util.diff(got, want, atol=1e-12, what="scale_fbank")), (n, case["scale"]))
    if m == "bank":
        kind = case["kind"]
        got, gc = api.build_bank(kind, c)
        base, bc = api.build_bank(kind, c, scale="constant")
        want = np.asarray(base) * ref.scale_vec(c["scale"], np.asarray(bc, float))[:, None]
        return Result(util.collect(util.diff(got, want, rtol=0, atol=1e-12, what=f"{kind} {c['scale']}"),
                                   util.diff(np.asarray(gc, float), np.asarray(bc, float), rtol=1e-12, what="centre frequencies")),
                      util.digest(want), execs=2)
    sig = api.make_signal(c)
    if m == "spec":
        want, S = ref.spectrogram(case["kind"], c, sig)
        got = api.call_spec(case["kind"], sig, c)
        return Result(util.collect(util.diff(got[0], want, rtol=1e-9, what="spectrogram")), util.digest(want), validated=len(want))
    ex = case["ex"]
    if ex in ("plp", "rplp"):
        want, cond = ref.plp(c, sig, ex == "rplp")
        got = api.call(ex, sig, c)
        d = util.diff(got, want, rtol=1e-7, atol=1e-7 + 1e-12 * cond, what=ex)
    elif ex == "pncc":
        want = ref.pncc(c, sig)
        got = api.call(ex, sig, c)
        d = util.diff(got, want, rtol=1e-7, atol=1e-8, what=ex)
    else:
        want = ref.fbcc(ex, c, sig)
        got = api.call(ex, sig, c)
        d = util.diff(got, want, rtol=2e-8, atol=2e-8, what=ex)
    return Result(util.collect(d), util.digest(want), validated=len(want))
