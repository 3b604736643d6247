"""Mel, linear, Bark and ERB spectrograms: deviation-bounded search of the parameter lattice, both returned matrices
against the model; small FFT sizes against an explicit DFT."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result
from .c08 import SIGS, LENS, FS, WINS, NFFT, NFILTS, LOW, HF

PID = "C07"


def params(kind):
    p = {"sig": SIGS + ["zeros", "impulse", "nyq", "ones", "gap"], "len": LENS, "fs": FS, "win": WINS, "nfft": NFFT, "nfilts": NFILTS,
         "pre_emph": [True, False], "coeff": [0.97, 0.95, 0.5, 0.0, 1.0, 0, 1], "low": LOW, "hf": HF,
         "scale": ["constant", "ascendant", "descendant"]}
    if kind == "mel":
        p["conv"] = [None, "Lindsay"]
    if kind == "bark":
        p["conv"] = [None, "Tjomov", "Schroeder", "Terhardt", "Traunmueller", "Zwicker"]
        p["nfft"] = [512, 256, 400, 511, 1024, 333]
        p["nfilts"] = [24, 13, 20, 40, 65]
        p["pre_emph"] = [True, False]
    if kind == "gam":
        p["conv"] = [None, "Glasberg"]
    return p


def three(kind):
    """a core alphabet for three simultaneous deviations"""
    p = {"sig": ["noise1", "int16_noise2", "gap", "burst"], "len": [[4, 9], [1, 0], [2, -1]], "fs": [16000, 8000, 11025, 44100], "win": [None, [0.0251, 0.0077, "kaiser"], [0.02, 0.02, "bartlet"], [0.05, 0.01, "hanning"]],
         "nfft": [256, 255, 512, 400] if kind != "bark" else [64, 63, 128], "nfilts": [16, 13, 26, 40] if kind != "bark" else [16, 13, 26], "pre_emph": [True, False], "coeff": [0.97, 0.5, 0.0], "low": [0, 133.3, 300],
         "hf": [None, 0.5, 0.4, 0.25], "scale": ["constant", "ascendant", "descendant"]}
    if kind == "mel":
        p["conv"] = [None, "Lindsay"]
    if kind == "bark":
        p["conv"] = [None, "Tjomov", "Schroeder", "Traunmueller"]
    return p


def valid(c):
    return not (c.get("conv") == "Zwicker" and c["low"] == 0)


def spaces(tier):
    out = [core.product("bare-defaults", {"kind": ["mel", "lin", "bark", "gam"], "fs": [16000, 8000, 44100], "sig": ["noise1", "int16_chirp"], "bare": [1]})]
    for kind in ("mel", "lin", "bark", "gam"):
        d = 2 if tier == "quick" or kind == "bark" else 3
        out.append(core.lattice(kind, params(kind), d, base={"kind": kind}, valid=valid))
        out.append(api.sweeps(kind, list(params(kind)), {"kind": kind, "len": [4, 9]}, kind == "bark"))
        out.append(core.lattice(kind + ", three deviations", three(kind), 3 if tier == "quick" else 4, base={"kind": kind}, valid=valid))
    out.append(core.product("many frames", {"kind": ["mel", "lin", "bark", "gam"], "len": api.MANY, "sig": ["noise1", "int16_noise2"], "pre_emph": [True, False]}, base=api.many()))
    out.append(core.product("long recordings", {"kind": ["mel", "lin", "bark", "gam"], "len": [[1001, 7], [3001, 0]] + ([] if tier == "quick" else [[12001, 0]]), "pre_emph": [True]},
                            base={"nfft": 512 if tier != "quick" else 256}))
    # short frames, tiny transforms, explicit DFT
    out.append(core.product("explicit-dft", {"kind": ["mel", "lin", "bark", "gam"], "nfft": [8, 9, 16, 21, 32], "win": [[0.002, 0.001, "hamming"], [0.004, 0.004, "hanning"],
               [0.001, 0.0005, "blackman"], [0.003, 0.001, "kaiser"], [0.002, 0.0015, "bartlet"]], "sig": ["noise1", "int16_noise2", "impulse", "nyq16", "ones"],
               "pre_emph": [True, False], "len": [[1, 0], [3, 2], [9, 7]]}, base={"nfilts": 4, "fs": 8000, "dft": 1}))
    return out


def run(case):
    c = api.full(case)
    kind = case["kind"]
    if case.get("bare"):
        c["pre_emph"] = kind != "bark"      # the Bark spectrogram pre-emphasises on request only
        sig = api.make_signal(c)
        want, S = ref.spectrogram(kind, c, sig)
        got = api.fn(api.SPECFN[kind])(sig, c["fs"])
    else:
        sig = api.make_signal(c)
        if case.get("dft"):
            S = np.abs(ref.dft_half(ref.analysis_frames(c, sig), c["nfft"]))
            fb, _, amb, elem = ref.bank(kind, c["nfilts"], c["nfft"], c["fs"], c["low"], c["high"], c["scale"], c["conv"])
            if elem.any():
                raise core.ModelSkip()
            want = S ** 2 / c["nfft"] @ fb.T
        else:
            want, S = ref.spectrogram(kind, c, sig)
        got = api.call_spec(kind, sig, c)
    if not isinstance(got, tuple) or len(got) != 2:
        return Result([f"{api.SPECFN[kind]} did not return a pair"])
    feats, spec = got
    smax = float(np.max(np.abs(S))) if S.size else 0
    probs = util.collect(util.diff(spec, S, rtol=1e-9, atol=1e-12, what="|FFT|"),
                         util.diff(feats, want, rtol=1e-9, atol=1e-12 + 1e-14 * smax ** 2, what="filter-bank output"))
    if np.iscomplexobj(spec):
        probs.append("magnitudes are complex")
    if np.asarray(feats).size and np.min(feats) < 0:
        probs.append(f"negative spectrogram value {np.min(feats)}")
    # row-wise accuracy: a quiet frame must not be hidden by a loud one
    for i in range(len(want)) if not probs else []:
        d = util.diff(np.asarray(feats)[i], want[i], rtol=1e-7, atol=1e-13 * smax ** 2 / c["nfft"], what=f"row {i}")
        if d:
            probs.append(d)
            break
    return Result(probs, util.digest(want), validated=len(want))
