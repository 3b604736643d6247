"""Filter-bank cepstra against the documented pipeline: deviation-bounded search of the whole parameter lattice of all
eight extractors, every state executed on the library and on the reference model."""
from .. import api, core, ref, util
from ..core import Result

PID = "C08"

SIGS = ["noise1", "int16_noise2", "chirp", "voiced", "burst", "decay", "f32_noise3", "full16_noise4", "loud_noise5",
        "off_noise6", "quiet_noise8", "int32_noise9"]
LENS = [[6, 37], [1, 0], [2, 0], [3, 1], [2, -1], [40, 3], [130, 0]]
FS = [16000, 8000, 11025, 22050, 32000, 44100, 48000, 96000, 4000]
WINS = [None, [0.025, 0.01, "hanning"], [0.03, 0.015, "blackman"], [0.02, 0.02, "bartlet"],
        [0.0251, 0.0077, "kaiser"], [0.032, 0.008, "hamming"], [0.01, 0.005, "hamming"], [0.05, 0.01, "hanning"]]
NFFT = [512, 256, 400, 511, 1024, 2048, 333, 4096]
NFILTS = [24, 13, 14, 20, 26, 32, 40, 64, 65, 128]
CEPS = [13, 1, 2, 12, 14, 20, "all"]
LOW = [0, 20, 133.3, 300, 1000]
HF = [None, 0.5, 0.25, 0.4, 0.2375]
LIFT = [None, 0, 1, 2, 3, 0.7, 10, 10.5, 22, -1, -7, -22]
NORM = [None, "mvn", "ms", "vn", "mn"]


def params(name):
    p = {"sig": SIGS, "len": LENS, "fs": FS, "win": WINS, "nfft": NFFT, "nfilts": NFILTS, "num_ceps": CEPS,
         "pre_emph": [True, False], "coeff": [0.97, 0.95, 0.5, 0.0, 1.0], "low": LOW, "hf": HF,
         "scale": ["constant", "ascendant", "descendant"], "dct": [2, 1, 3, 4], "energy": [False, True],
         "lifter": LIFT, "norm": NORM, "bank": api.BANKS}
    if name in ("bfcc", "psrcc"):
        p["nfilts"] = [26, 24, 13, 14, 20, 32, 40, 64, 65, 128]
    if name == "bfcc":
        p["conv"] = [None, "Tjomov", "Schroeder", "Terhardt", "Traunmueller", "Zwicker"]
        p["nfft"] = [512, 256, 400, 511, 1024, 333]
        p["nfilts"] = [26, 24, 13, 14, 20, 40, 65]
    elif name in ("mfcc", "imfcc", "msrcc", "psrcc"):
        p["conv"] = [None, "Lindsay"]
    if name in ("msrcc", "psrcc"):
        p["gamma"] = [-1 / 7, 0.5, -0.3, 1.0, 1 / 3]
    return p


def three(name):
    """a core alphabet for three simultaneous deviations"""
    bark = name == "bfcc"
    p = {"sig": ["noise1", "int16_noise2", "burst"], "len": [[4, 9], [1, 0]], "fs": [16000, 11025, 44100], "win": [None, [0.0251, 0.0077, "kaiser"], [0.02, 0.02, "bartlet"]],
         "nfft": [256, 255, 512] if not bark else [64, 63, 128], "nfilts": [16, 13, 26, 40] if not bark else [16, 13, 26], "num_ceps": [13, 1, "all"], "pre_emph": [True, False], "coeff": [0.97, 0.5],
         "low": [0, 133.3], "hf": [None, 0.5, 0.4], "scale": ["constant", "ascendant", "descendant"], "dct": [2, 1, 3, 4], "energy": [False, True], "lifter": [None, 2, 0.7, -7, 22], "norm": NORM,
         "bank": [None, "plus", "rows", "holes"]}
    if name in ("mfcc", "imfcc", "msrcc", "psrcc"):
        p["conv"] = [None, "Lindsay"]
    if bark:
        p["conv"] = [None, "Schroeder", "Traunmueller"]
    if name in ("msrcc", "psrcc"):
        p["gamma"] = [-1 / 7, 0.5, 1 / 3]
    return p


def valid(c):
    if c["num_ceps"] != "all" and c["num_ceps"] > c["nfilts"]:
        return False
    if c.get("conv") == "Zwicker" and c["low"] == 0:
        return False
    return True


def spaces(tier):
    depth = 2 if tier == "quick" else 3
    out = [defaults_space()]
    for name in api.FBCC:
        d = depth if name != "bfcc" else 2
        out.append(core.lattice(name, params(name), d, base={"ex": name}, valid=valid))
        out.append(api.sweeps(name, [k for k in params(name) if k != "bank"], {"ex": name, "num_ceps": 13, "len": [4, 9]}, name == "bfcc"))
        out.append(api.sweeps(name + " few ceps", ["nfilts", "dct"], {"ex": name, "num_ceps": 1, "len": [2, 0]}, name == "bfcc"))
        out.append(core.lattice(name + ", three deviations", three(name), 3, base={"ex": name}, valid=valid))
    out.append(core.product("many frames", {"ex": api.FBCC, "len": api.MANY, "sig": ["noise1", "int16_noise2"], "norm": [None, "mvn"], "energy": [False, True]}, base=api.many()))
    out.append(core.product("long recordings", {"ex": api.FBCC, "len": [[1001, 7], [3001, 0]] + ([] if tier == "quick" else [[12001, 0]])}, base={"nfft": 256}))
    if tier == "thorough":
        # Bark banks are slow pure Python: three deviations over a reduced alphabet
        p = params("bfcc")
        p = {k: v[:4] for k, v in p.items()}
        p["nfft"] = [256, 128, 255]
        out.append(core.lattice("bfcc-3dev", p, 3, base={"ex": "bfcc"}, valid=valid))
    return out


def defaults_space():
    """bare calls: every parameter left to its own default"""
    return core.product("bare-defaults", {"ex": api.FBCC, "fs": [16000, 8000, 44100], "sig": ["noise1", "int16_chirp"],
                                          "bare": [1]})


def run(case):
    name = case["ex"]
    c = api.full(case)
    if case.get("bare"):
        c["nfilts"] = 26 if name in ("bfcc", "psrcc") else 24
        sig = api.make_signal(c)
        want = ref.fbcc(name, c, sig)
        got = api.fn(name)(sig, c["fs"])
    else:
        sig = api.make_signal(c)
        fb = api.supplied(c, ref.BANK_OF[name])
        want = ref.fbcc(name, c, sig, fb)
        got = api.call(name, sig, c, fb)
    d = util.diff(got, want, rtol=2e-8, atol=2e-8, what=name)
    return Result(util.collect(d), util.digest(want), validated=len(want))
