"""Parameter validation: full product of below / at / above every documented limit (and of every pair of limits) for every
bank, spectrogram, extractor and for framing; the library's parameter error exactly outside the limits, a result of the
documented shape inside and on them."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip

PID = "C18"
SPECS = {"mel_spectrogram": "mel", "linear_spectrogram": "lin", "bark_spectrogram": "bark", "erb_spectrogram": "gam"}
LOWS = [0, 0.0, 100, -0.001, -1, -4000, -1e-9]
HIGHS = [None, 0, -1, 0.001, 1000, -500.5]        # relative to fs/2 (None: not given)
CEPS = [0, -1, 1, -3, 2, 100]                     # relative to nfilts
WINS = [[0.008, 0.004], [0.008, 0.008], [0.008, 0.0081], [0.004, 0.008], [0.0081, 0.008]]


def spaces(tier):
    q = tier == "quick"
    fs = [8000, 11025, 16000] if q else [8000, 11025, 16000, 22050, 44100]
    out = []
    for kind in ("mel", "imel", "lin", "bark", "gam"):
        out.append(core.product("bank " + kind, {"low": LOWS, "dh": HIGHS, "fs": fs, "nfilts": [1, 12], "scale": ["constant", "ascendant"]}, base={"what": "bank", "kind": kind}))
        out.append(core.product("limits at every rate, " + kind, {"fs": api.DENSE["fs"], "dh": [0, 1e-6, None, 0.5, -0.5], "low": [0, -1e-6]}, base={"what": "bank", "kind": kind, "nfilts": 6, "scale": "constant"}))
    for ex in SPECS:
        out.append(core.product("limits at every rate, " + ex, {"fs": api.DENSE["fs"], "dh": [0, 1e-6, 0.5], "low": [0, -1e-6]}, base={"what": "spec", "ex": ex, "nfilts": 6, "w": WINS[0]}))
        out.append(core.product(ex, {"low": LOWS, "dh": HIGHS, "fs": fs, "w": WINS}, base={"what": "spec", "ex": ex, "nfilts": 6}))
    for ex in api.FBCC + ["pncc", "plp", "rplp"]:
        out.append(core.product(ex, {"low": LOWS[::1] if not q else [0, 100, -0.001, -1], "dh": HIGHS if not q else [None, 0, 0.001, 1000, -1], "dc": CEPS, "w": WINS, "fs": fs[:2] if q else fs,
                                     "nfilts": [6]}, base={"what": "ex", "ex": ex}))
        out.append(core.product(ex + " supplied bank", {"dc": CEPS, "w": WINS, "fs": fs, "nfilts": [6, 9]}, base={"what": "ex", "ex": ex, "fb": 1, "low": 0, "dh": None}))
        out.append(core.product(ex + " counts", {"nfilts": list(range(1, 70)) + [128], "dc": [-1, 0, 1]}, base={"what": "ex", "ex": ex, "low": 0, "dh": None, "w": WINS[0], "fs": 8000}))
        out.append(core.product("limits at every rate, " + ex, {"fs": api.DENSE["fs"], "dh": [0, 1e-6, 0.5], "low": [0, -1e-6], "dc": [0]}, base={"what": "ex", "ex": ex, "nfilts": 6, "w": WINS[0]}))
    for ex in ("lpc", "lpcc"):
        out.append(core.product(ex, {"w": WINS, "fs": fs, "order": [1, 2, 13]}, base={"what": "lp", "ex": ex}))
    for ex in ("cqt_spectrogram", "cqcc"):
        out.append(core.product(ex, {"dh": HIGHS, "w": WINS, "fs": fs, "low": [0, 100]}, base={"what": "cq", "ex": ex}))
    out.append(core.product("framing", {"w": WINS + [[0.01 * a, 0.01 * b] for a in (1, 2, 3) for b in (1, 2, 3)], "fs": fs}, base={"what": "framing"}))
    return out


def run(case):
    what = case["what"]
    fs = case["fs"]
    PE = api.fn("ParameterError")
    c = api.full({"fs": fs, "nfft": 64, "nfilts": case.get("nfilts", 6), "len": [3, 2]})
    bad = []
    low, dh = case.get("low", 0), case.get("dh")
    c["low"], c["high"] = low, None if dh is None else fs / 2 + dh
    if what not in ("cq",) and low < 0:
        bad.append("low_freq < 0")
    if dh is not None and dh > 0:
        bad.append("high_freq > fs/2")
    if dh is not None and fs / 2 + dh <= low:
        raise ModelSkip()
    if "dc" in case:
        n = c["nfilts"] + case["dc"]
        if n < 1:
            raise ModelSkip()
        c["num_ceps"] = c["order"] = n
        if case["dc"] > 0:
            bad.append("num_ceps > nfilts")
    if case.get("ex") in ("pncc",) and c["num_ceps"] == 0:
        raise ModelSkip()
    L = H = None
    if "w" in case:
        c["win"] = [case["w"][0], case["w"][1], "hamming"]
        if case["w"][0] < case["w"][1]:
            bad.append("window shorter than hop")
        L, H = int(case["w"][0] * fs), int(case["w"][1] * fs)
    sig = util.lcg(int(0.03 * fs) + 3, 2).copy()
    rows = (len(sig) - L) // H + 1 if L else None
    try:
        if what == "bank":
            got = api.build_bank(case["kind"], dict(c, scale=case["scale"]))
            shapes = [(np.shape(got[0]), (c["nfilts"], 33)), (np.shape(got[1]), (c["nfilts"],))]
        elif what == "spec":
            got = api.call_spec(SPECS[case["ex"]], sig, c)
            shapes = [(np.shape(got[0]), (rows, c["nfilts"])), (np.shape(got[1]), (rows, 33))]
        elif what == "ex":
            fb = None
            if case.get("fb"):
                fb = np.abs(util.lcg(c["nfilts"] * 33, 3)).reshape(c["nfilts"], 33) + 0.1
            got = api.call(case["ex"], sig, c, fb)
            shapes = [(np.shape(got), (rows, c["num_ceps"]))]
        elif what == "lp":
            c["order"] = case["order"]
            got = api.call(case["ex"], sig, c)
            shapes = [(np.shape(got[0] if case["ex"] == "lpc" else got), (rows, case["order"]))]
        elif what == "cq":
            c.update(api.CQT_DEFAULT, nfft=128, f0=fs / 10.1, bpo=4, octaves=2, num_ceps=3)
            if dh is None or dh <= 0:
                ref.cqt_freqs(c)
            got = api.call(case["ex"], sig, c)
            shapes = [(np.shape(got)[1] if case["ex"] == "cqt_spectrogram" else np.shape(got), rows if case["ex"] == "cqt_spectrogram" else (rows, min(3, len(ref.cqt_freqs(c)[0]))))]
        else:
            got = api.fn("framing")(sig, fs, case["w"][0], case["w"][1])
            shapes = [(np.shape(got[0]), (rows, L))]
    except PE as e:
        if bad:
            return Result([], ("rejected", tuple(bad)))
        return Result([f"valid parameters rejected: {str(e)[:100]}"], "rejected valid")
    except ModelSkip:
        raise
    except Exception as e:
        if bad:
            return Result([f"{bad}: raised {type(e).__name__} ({str(e)[:80]}) instead of ParameterError"], "other error")
        raise
    if bad:
        return Result([f"{' and '.join(bad)} accepted"], "accepted")
    return Result([f"shape {g}, expected {w}" for g, w in shapes if g != w], ("ok", str(shapes)))
