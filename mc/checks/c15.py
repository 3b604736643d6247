"""Representation: every signal-taking function on the full product of dtypes and memory layouts (contiguous, strided,
reversed, sliced, read-only, big-endian, columns of a recording, list, tuple) against the contiguous float64 result."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip

PID = "C15"
SPECS = {"mel_spectrogram": "mel", "linear_spectrogram": "lin", "bark_spectrogram": "bark", "erb_spectrogram": "gam"}
EXT = api.FBCC + ["pncc", "lpc", "lpcc", "plp", "rplp", "cqcc", "cqt_spectrogram"] + list(SPECS) + \
    ["pre_emphasis", "framing", "yin", "dominant", "dominant_butter", "extract_feats"]
DTYPES = ["int8", "int16", "int32", "int64", "float32", "float64", "uint8", "f2be"]
KEYED = [e for e in EXT if e in api.FBCC + ["pncc", "lpc", "lpcc", "plp", "rplp", "cqcc", "cqt_spectrogram"] or e in SPECS]
LAY = ["c", "stride2", "stride3", "rev", "slice", "ro", "be", "col", "fcol", "list", "tuple"]
SIGS = ["noise", "peak", "small", "gapped"]


def spaces(tier):
    q = tier == "quick"
    out = []
    for ex in EXT:
        p = {"dtype": DTYPES[:7], "lay": LAY, "sig": SIGS, "pre_emph": [True, False], "len": [[4, 9], [1, 0]]}
        base = {"ex": ex, "fs": 8000, "nfft": 256, "nfilts": 16}
        if ex in ("cqcc", "cqt_spectrogram"):
            base.update(api.CQT_DEFAULT, f0=600, bpo=12, octaves=3)
        if ex in api.FBCC:
            p["energy"] = [False, True]
        if not q:
            p["win"] = [None, [0.02, 0.01, "hanning"], [0.0161, 0.0161, "kaiser"], [0.03, 0.002, "blackman"]]
            p["coeff"] = [0.97, 1, 0, 0.5]
            p["fs"] = [8000, 16000, 11025]
        elif ex in ("pre_emphasis", "mfcc", "lpc", "plp"):
            p["coeff"] = [0.97, 1]
        if ex in ("framing", "yin", "dominant", "dominant_butter", "extract_feats"):
            p.pop("pre_emph"), p.pop("coeff", None)
        if ex in KEYED:
            for dt, lay in (("int16", "c"), ("float32", "rev"), ("uint8", "stride2")):
                out.append(api.sweep_ex(ex, {"dtype": dt, "lay": lay, "sig": "peak", "len": [3, 9]}, drop=("sig", "norm"), second={"sig": "noise"}, tag=f" {dt}/{lay}"))
            b = api.many(base, win=api.SHORTWIN, dtype="int16", lay="c", num_ceps=5, **({"f0": 1600, "octaves": 2} if "cq" in ex else {}))
            out.append(core.product(ex + ", many frames", {"len": api.MANY[:5], "sig": ["noise", "peak"], "dtype": ["int16", "int8", "float32"], "lay": ["c", "rev"]}, base=b))
        if q and ex in ("cqcc", "cqt_spectrogram", "bfcc", "plp", "rplp", "bark_spectrogram"):
            out.append(core.lattice(ex, p, 3, base=base))
        else:
            out.append(core.product(ex, p, base=base))
    return out


def values(name, dtype, n):
    """integer-valued samples exactly representable in the dtype"""
    lim = {"int8": (-128, 127), "uint8": (0, 255), "int16": (-32768, 32767)}.get(dtype, (-30000, 30000))
    x = util.lcg(n, 5)
    if name == "noise":
        v = np.round(x * 100)
    elif name == "peak":          # saturates the type: any intermediate in that type would overflow
        v = np.where(x >= 0, lim[1], lim[0]) - np.where(np.arange(n) % 7 == 0, np.sign(np.where(x >= 0, 1, -1)) * 3, 0)
    elif name == "small":
        v = np.round(x * 3)
    else:
        v = np.round(x * 90)
        v[n // 3:n // 2] = 0
    return np.clip(v, *lim).astype(float)


def invoke(ex, sig, c):
    if ex in SPECS:
        return [np.asarray(a) for a in api.call_spec(SPECS[ex], sig, c)]
    wl, wh, wt = api.win_of(c)
    if ex == "pre_emphasis":
        return [np.asarray(api.fn(ex)(sig, c["coeff"]))]
    if ex == "framing":
        f, n = api.fn(ex)(sig, c["fs"], wl, wh)
        return [np.asarray(f), np.asarray(n)]
    if ex == "yin":
        r = api.fn("compute_yin")(sig, c["fs"], win_len=wl, win_hop=wh, low_freq=100)
        return [np.asarray(a) for a in r]
    if ex.startswith("dominant"):
        return [np.asarray(api.fn("get_dominant_frequencies")(sig, c["fs"], butter_filter=ex != "dominant", lower_cutoff=100, upper_cutoff=3000, nfft=c["nfft"],
                                                              win_len=wl, win_hop=wh, win_type=wt))]
    if ex == "extract_feats":
        r = api.fn(ex)(sig, c["fs"], nfft=c["nfft"])
        return [np.array([float(r[k]) for k in sorted(r)])]
    r = api.call(ex, sig, c)
    return [np.asarray(a) for a in r] if ex == "lpc" else [np.asarray(r)]


def run(case):
    ex = case["ex"]
    c = api.full(case)
    n = api.n_samples(c)
    if ex == "yin":
        n += 300
    v = values(case["sig"], case["dtype"], n)
    want = invoke(ex, v.copy(), c)
    sig = util.layout(v.astype(case["dtype"]), case["lay"])
    keep = np.array(sig, copy=True)
    try:
        got = invoke(ex, sig, c)
    except Exception:
        if case["lay"] in ("list", "tuple"):      # lists need not be accepted
            return Result([], (ex, "list refused"))
        raise
    probs = []
    tol = 1e-9
    if ex == "extract_feats" and case["dtype"] == "float32":    # transformed in single precision: equal to that precision
        names = sorted(api.fn(ex)(v, c["fs"], nfft=c["nfft"]))
        for nm, g, w in zip(names, got[0], want[0]):
            if not abs(g - w) <= (1.0 if nm == "spectral_rolloff" else 1e-4 * abs(w) + 1e-6):
                probs.append(f"{nm} {g} for float32, {w} for float64")
        return Result(probs, util.digest(*want), execs=2)
    for j, (g, w) in enumerate(zip(got, want)):
        d = util.diff(g, w, rtol=tol, atol=tol if ex not in SPECS else 0, what=f"{ex} output {j} for {case['dtype']}/{case['lay']} vs float64")
        if d:
            probs.append(d)
    if not np.array_equal(np.asarray(sig), keep):
        probs.append("input changed")
    return Result(probs, util.digest(*want), execs=2)
