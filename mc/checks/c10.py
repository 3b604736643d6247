"""Locality: each row of an extraction against the extraction of its own frame alone, every prefix and every suffix at
every hop boundary, and all words of frame types (noise, silence, loud, impulse, constant), for every frame-wise extractor."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip

PID = "C10"
SPECS = {"mel_spectrogram": "mel", "linear_spectrogram": "lin", "bark_spectrogram": "bark", "erb_spectrogram": "gam"}
EXT = api.FBCC + list(SPECS) + ["lpc", "lpcc", "plp", "rplp", "cqt_spectrogram"]
LETTERS = "nslic"
WIN = [0.008, 0.008, "hamming"]


def extract(ex, sig, c):
    if ex in SPECS:
        return [np.asarray(a) for a in api.call_spec(SPECS[ex], sig, c)]
    r = api.call(ex, sig, c)
    if ex == "lpc":
        return [np.asarray(r[0]), np.asarray(r[1]).reshape(len(r[0]), -1)]
    if ex == "cqt_spectrogram":
        return [np.asarray(r).T]
    return [np.asarray(r)]


def base(ex):
    b = {"ex": ex, "nfft": 128, "nfilts": 13, "fs": 8000, "win": [0.016, 0.006, "hamming"], "num_ceps": 13, "order": 8, "len": [5, 9]}
    if ex == "cqt_spectrogram":
        b.update(api.CQT_DEFAULT, nfft=256, f0=900, bpo=12, octaves=2)
    return b


def spaces(tier):
    q = tier == "quick"
    out = []
    for ex in EXT + ["pncc"]:
        p = {"sig": ["noise1", "int16_noise2", "burst", "voiced", "gap", "lead", "trail", "decay", "loud_noise5", "f32_noise3"],
             "len": [[5, 9], [2, 0], [7, -1], [12, 3]], "fs": [8000, 16000, 11025],
             "win": [[0.016, 0.006, "hamming"], [0.016, 0.016, "hanning"], [0.0161, 0.0047, "kaiser"], [0.024, 0.002, "blackman"], [0.016, 0.008, "bartlet"], [0.03, 0.01, "hamming"]],
             "nfft": [128, 256, 127, 512], "pre_emph": [True, False]}
        if ex not in ("lpc", "cqt_spectrogram") and ex not in SPECS:
            p["lifter"] = [None, 2, -7]
        if ex in api.FBCC:
            p["energy"] = [False, True]
            p["dct"] = [2, 3]
        if ex in ("cqt_spectrogram",):
            p["nfft"] = [256, 300] if q else [256, 300, 512]
            p["thr"] = [0.005, 0.0]
        if ex in ("bfcc", "plp", "rplp", "bark_spectrogram"):
            p["nfft"] = [128, 64, 127]
        if ex == "psrcc":        # the phase of a zero hinges on the sign of zero
            p["sig"] = [x for x in p["sig"] if x not in ("gap", "lead", "trail")]
        # dense ranges: locality must not depend on a particular value
        drop = ["num_ceps", "norm", "len", "sig"]
        out.append(api.sweep_ex(ex, dict(base(ex), len=[3, 5], mode="light"), drop=drop, second={"nfilts": 20, "len": [3, 5], "fs": 8000, "win": [0.016, 0.006, "hamming"], "hf": None}))
        out.append(core.lattice("chunks " + ex, p, 2 if q else 3, base=base(ex)))
    for ex in EXT:
        b = base(ex)
        b.update(win=[0.004, 0.002, "hamming"], mode="blocks", nfft=64, order=5)
        if ex == "cqt_spectrogram":
            b.update(f0=1600)
        out.append(core.product("blocks of many frames " + ex, {"len": api.MANY, "sig": ["noise1", "burst"], "pre_emph": [True, False]}, base=b))
    for ex in EXT:
        b = base(ex)
        b.update(win=WIN, mode="word", nfft=64 if ex != "cqt_spectrogram" else 256, order=6)
        out.append(core.tree("frame words " + ex, LETTERS if ex != "psrcc" else "nlm", 4 if q else 6, "words", base=b, minlen=2, chunk=60))
    return out


def letter(ch, n):
    if ch == "n":
        return util.lcg(n, 4) * 0.8
    if ch == "m":
        return util.lcg(n, 8) * 0.02
    if ch == "s":
        return np.zeros(n)
    if ch == "l":
        return util.lcg(n, 6) * 3e4
    if ch == "i":
        x = np.zeros(n)
        x[n // 3] = 1.0
        return x
    return np.full(n, 0.25)


def close(got, want, what, ex, noise=0.0):
    out = []
    for j, (g, w) in enumerate(zip(got, want)):
        tol = 1e-7 if ex in ("plp", "rplp", "lpc", "lpcc") else 1e-9
        d = util.diff(g, w, rtol=tol, atol=tol if ex not in ("cqt_spectrogram",) and ex not in SPECS else noise, what=f"{what} output {j}")
        if d:
            out.append(d)
    return out


def word_case(case):
    ex = case["ex"]
    c = api.full(case)
    c["pre_emph"] = False
    n = int(WIN[0] * c["fs"])
    singles, probs, execs = {}, [], 0
    noise = 1e-14 * (3e4 if any("l" in w for w in case["words"]) else 1) if ex == "cqt_spectrogram" else 0.0
    for ch in sorted({ch for w in case["words"] for ch in w}):
        singles[ch] = extract(ex, letter(ch, n), c)
        execs += 1
    for w in case["words"]:
        got = extract(ex, np.concatenate([letter(ch, n) for ch in w]), c)
        execs += 1
        want = [np.concatenate([singles[ch][j] for ch in w]) for j in range(len(got))]
        probs += close(got, want, "word " + "".join(w), ex, noise)
    return Result(probs[:4], (ex, len(case["words"])), validated=len(case["words"]), execs=execs)


def run(case):
    if case.get("mode") == "word":
        return word_case(case)
    ex = case["ex"]
    c = api.full(case)
    sig = np.asarray(api.make_signal(c))
    wl, wh, _ = api.win_of(c)
    L, H = int(wl * c["fs"]), int(wh * c["fs"])
    full = extract(ex, sig, c)
    n = (len(sig) - L) // H + 1
    if n < 1:
        raise ModelSkip()
    probs, execs = [], 1
    noise = ref.cqt_noise(c, sig) if ex == "cqt_spectrogram" else 0.0
    if case.get("mode") == "blocks":        # a long recording in blocks of 7, 50 and 100 frames
        x = ref.preemph(sig, c["coeff"]) if c["pre_emph"] else sig
        c1 = dict(c, pre_emph=False)
        if any(len(f) != n for f in full):
            return Result([f"{[len(f) for f in full]} rows for {n} frames"])
        for b in ((7, 50, 100) if n < 300 else (100,)):
            for i in range(0, n, b):
                k = min(b, n - i)
                got = extract(ex, x[i * H:(i + k - 1) * H + L], c1)
                execs += 1
                probs += close(got, [f[i:i + k] for f in full], f"frames {i}..{i + k - 1} of {n}", ex, noise)
        return Result(probs[:4], util.digest(*full), validated=n, execs=execs)
    if ex == "pncc":
        big = full[0]
        for m in range(1, n):       # prefixes: rows up to two before the end of the prefix do not change
            got = extract(ex, sig[:L + (m - 1) * H], c)[0]
            execs += 1
            if len(got) != m:
                probs.append(f"prefix of {m} frames gave {len(got)} rows")
            elif m > 2:
                d = util.diff(got[:m - 2], big[:m - 2], rtol=1e-9, atol=1e-10, what=f"pncc rows of the {m}-frame prefix")
                if d:
                    probs.append(d)
        return Result(probs[:4], util.digest(big), validated=n, execs=execs)
    x = ref.preemph(sig, c["coeff"]) if c["pre_emph"] else sig
    c1 = dict(c, pre_emph=False)
    for i in range(n):              # frame i alone
        got = extract(ex, x[i * H:i * H + L], c1)
        execs += 1
        probs += close(got, [f[i:i + 1] for f in full], f"frame {i} of {n}", ex, noise)
    if case.get("mode") == "light":
        for m in (1, 2):
            got = extract(ex, sig[:L + (m - 1) * H], c)
            probs += close(got, [f[:m] for f in full], f"first {m} frames", ex, noise)
        return Result(probs[:4], util.digest(*full), validated=n + 2, execs=n + 3)
    for m in range(1, n):           # prefixes of the original signal, all cut lengths around a boundary; suffixes
        for extra in (0, H - 1):
            got = extract(ex, sig[:L + (m - 1) * H + extra], c)
            execs += 1
            probs += close(got, [f[:m] for f in full], f"first {m} frames", ex, noise)
        got = extract(ex, x[m * H:], c1)
        execs += 1
        probs += close(got, [f[m:] for f in full], f"from frame {m} on", ex, noise)
    return Result(probs[:4], util.digest(*full), validated=execs, execs=execs)
