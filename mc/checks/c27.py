"""Plots: every plot function on all small matrices over a small alphabet and on a lattice of options, by inspecting the drawn
artists (image data, extent, orientation, curves, tick labels, texts); the plotted data is unchanged."""
import numpy as np

from .. import api, core, ref, util
from ..core import Result, ModelSkip

PID = "C27"


def spaces(tier):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401  (before the workers are forked)
    q = tier == "quick"
    out = [core.tree("spectrograms 1x3", [0.0, 1.0, 1e-12, -2.0, 300.0], 3, "mats", base={"mode": "spec", "shape": [1, 3]}, minlen=3, chunk=5),
           core.tree("spectrograms 2x2", [0.0, 1.0, -2.0, 300.0] if q else [0.0, 1.0, 1e-12, -2.0, 300.0], 4, "mats", base={"mode": "spec", "shape": [2, 2]}, minlen=4, chunk=8),
           core.lattice("spectrogram options", {"shape": [[13, 20], [1, 1], [40, 3], [2, 50], [13, 2500], [1100, 4], [65, 600]], "dbf": [80.0, 20.0, 3.0, 0.0, 120], "ext": [[0, 1.5, 0, 8000], [2, 3, 100, 200], [0, 10, 0, 24]], "colorbar": [True, False],
                                                "complex": [0, 1], "scale": [1.0, 1e-8, 1e6], "fs": [16000, 8000]}, 2 if q else 4, base={"mode": "specopt"}),
           core.tree("features 2x2", [0.0, 1.0, -2.0], 4, "mats", base={"mode": "feat", "shape": [2, 2]}, minlen=4, chunk=8),
           core.product("feature sizes", {"shape": [[13, 20], [1, 1], [40, 3], [2, 50], [1, 13], [1500, 13], [5000, 2], [3, 700]], "dtype": ["f8", "F", "i4", "f4"]}, base={"mode": "featopt"}),
           core.lattice("filter banks", {"kind": ["mel", "imel", "lin", "bark", "gam", "noise"], "nfilts": [6, 1, 13, 24], "nfft": [64, 65, 256], "fs": [8000, 16000, 44100], "fb_type": ["mel", "bark", "gamma", "lin", "other"],
                                         "centres": [True, False], "units": ["hz", "own"]}, 2 if q else 4, base={"mode": "bank"})]
    X = [0.0, 20.0, 133.3, 1000.0, 4000.0, 7999.5, 22050.0]
    out.append(core.tree("tick labels", X, 3, "xs", base={"mode": "tick"}, minlen=1, chunk=20))
    return out


def plotting():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt


class shown:
    """run a plot function with plt.show() replaced, yield the figures"""

    def __init__(self, f):
        plt = plotting()
        old = plt.show
        plt.show = lambda *a, **k: None
        try:
            f()
        finally:
            plt.show = old
        self.plt = plt
        self.figs = [plt.figure(n) for n in plt.get_fignums()]

    def close(self):
        self.plt.close("all")


def db(x, dbf):
    m = np.abs(x)
    y = 10 * np.log10(np.maximum(1e-10, m) / max(1e-10, m.max()))
    return np.maximum(y, y.max() - dbf)


def image(s, probs):
    if len(s.figs) != 1:
        probs.append(f"{len(s.figs)} figures")
        return None, None
    ims = [(ax, im) for ax in s.figs[0].axes for im in ax.images]
    if len(ims) != 1:
        probs.append(f"{len(ims)} images")
        return None, None
    return ims[0]


def upright(ax, im):
    """is row 0 of the data at the bottom of the displayed picture?"""
    x0, x1, y0, y1 = im.get_extent()
    lo, hi = ax.get_ylim()
    return (im.origin == "lower") == ((y1 > y0) == (hi > lo))


def clim(im):
    """the colours must tell the values apart: no clipping at either end"""
    a, (lo, hi) = np.ma.filled(im.get_array().astype(float), np.nan), im.get_clim()
    if lo is not None and (lo > a.min() + 1e-9 * (abs(a.min()) + 1) or hi < a.max() - 1e-9 * (abs(a.max()) + 1)):
        return [f"values {a.min()}..{a.max()} shown with colours for {lo}..{hi}"]
    return []


def check_spec(x, dbf, ext, opts, probs):
    from spafe.utils import vis
    keep = x.copy()
    if opts.get("bare"):
        dbf = 80.0
        s = shown(lambda: vis.show_spectrogram(x, 16000, *ext))
        try:
            ax, im = image(s, probs)
            if im is not None:
                probs += util.collect(util.diff(np.ma.filled(im.get_array().astype(float), np.nan), db(keep, 80.0), rtol=1e-9, atol=1e-9, what="picture (dB) with default options")) + ([] if upright(ax, im) else ["first row not at the bottom"])
        finally:
            s.close()
        return
    s = shown(lambda: vis.show_spectrogram(x, opts.get("fs", 16000), ext[0], ext[1], ext[2], ext[3], dbf=dbf, xlabel="XL", ylabel="YL", title="TI", figsize=(3, 2), colorbar=opts.get("colorbar", True)))
    try:
        ax, im = image(s, probs)
        if im is not None:
            probs += util.collect(util.diff(np.ma.filled(im.get_array().astype(float), np.nan), db(keep, dbf), rtol=1e-9, atol=1e-9, what="picture (dB)"))
            if not np.allclose(sorted(im.get_extent()[:2]) + sorted(im.get_extent()[2:]), sorted(ext[:2]) + sorted(ext[2:])):
                probs.append(f"extent {im.get_extent()}, expected {ext}")
            probs += clim(im)
            if not upright(ax, im):
                probs.append("first row is not at the bottom")
            if (ax.get_title(), ax.get_xlabel(), ax.get_ylabel()) != ("TI", "XL", "YL"):
                probs.append(f"texts {(ax.get_title(), ax.get_xlabel(), ax.get_ylabel())}")
            if (len(s.figs[0].axes) > 1) != bool(opts.get("colorbar", True)):
                probs.append("colour bar drawn or missing against the request")
    finally:
        s.close()
    if not np.array_equal(x, keep):
        probs.append("the plotted spectrogram was modified")


def check_feat(x, probs):
    from spafe.utils import vis
    keep = x.copy()
    s = shown(lambda: vis.show_features(x, "TI", "YL", "XL", figsize=(3, 2)))
    try:
        ax, im = image(s, probs)
        if im is not None:
            probs += util.collect(util.diff(np.ma.filled(im.get_array().astype(float), np.nan), keep.T.astype(float), rtol=1e-9, atol=0, what="picture"))
            probs += clim(im)
            if not upright(ax, im):
                probs.append("first coefficient is not at the bottom")
            if (ax.get_title(), ax.get_xlabel(), ax.get_ylabel()) != ("TI", "XL", "YL"):
                probs.append(f"texts {(ax.get_title(), ax.get_xlabel(), ax.get_ylabel())}")
    finally:
        s.close()
    if not np.array_equal(x, keep):
        probs.append("the plotted features were modified")


def scale_of(v, fb_type):
    return {"mel": ref.hz2mel, "bark": ref.hz2bark, "gamma": ref.hz2erb}.get(fb_type, lambda z: z)(v)


def labels_ok(got, ticks, fb_type):
    for g, t in zip(got, ticks):
        w = float(scale_of(np.float64(t), fb_type)) if not (t < 0 and fb_type in ("mel", "gamma")) else None
        if w is None or not np.isfinite(w):
            continue
        try:
            v = float(str(g).replace("\u2212", "-"))
        except ValueError:
            return f"label {g!r} at {t}"
        if abs(v - w) > 0.0501:
            return f"label {g} at {t} Hz, expected {w:.1f}"
    return None if len(got) == len(ticks) else f"{len(got)} labels for {len(ticks)} ticks"


def run(case):
    m = case["mode"]
    probs = []
    if m == "spec":
        for w in case["mats"]:
            check_spec(np.array(w).reshape(case["shape"]), 80.0 if sum(w) else 20.0, [0, 1.5, 0, 8000], {}, probs)
        return Result(probs[:4], str(case["mats"][0]), validated=len(case["mats"]), execs=len(case["mats"]))
    if m == "specopt":
        r, k = case["shape"]
        x = util.lcg(r * k, 3).reshape(r, k) * case["scale"]
        if case["complex"]:
            x = x * np.exp(1j * util.lcg(r * k, 4).reshape(r, k) * 3)
        check_spec(x.copy(), case["dbf"], case["ext"], case, probs)
        if case["dbf"] == 80.0:
            y = x.copy()
            y.flat[::3] *= 1e-9
            check_spec(y, 80.0, case["ext"], {"bare": 1}, probs)
        return Result(probs[:4], util.digest(x))
    if m == "feat":
        for w in case["mats"]:
            check_feat(np.array(w).reshape(case["shape"]), probs)
        return Result(probs[:4], str(case["mats"][0]), validated=len(case["mats"]), execs=len(case["mats"]))
    if m == "featopt":
        r, k = case["shape"]
        x = (util.lcg(r * k, 3) * 30).reshape(r, k)
        x = {"f8": x.copy(), "F": np.asfortranarray(x), "i4": np.round(x).astype(np.int32), "f4": x.astype(np.float32)}[case["dtype"]]
        check_feat(x, probs)
        return Result(probs[:4], (r, k, case["dtype"]))
    from spafe.utils import vis
    if m == "tick":
        n = 0
        for xs in case["xs"]:
            for t in ("mel", "bark", "gamma", "lin"):
                n += 1
                d = labels_ok(list(vis.tick_function(np.array(xs), t)), xs, t)
                if d:
                    probs.append(f"tick_function {t}: {d}")
        return Result(probs[:4], n, validated=n, execs=n)
    # filter banks
    n, nfft, fs = case["nfilts"], case["nfft"], case["fs"]
    if case["kind"] == "noise":
        fb, cen = np.abs(util.lcg(n * (nfft // 2 + 1), 2)).reshape(n, -1).copy(), np.linspace(100, fs / 3, n)
    else:
        fb, cen = [np.array(a) for a in ref.bank(case["kind"], n, nfft, fs)[:2]]
    if case["units"] == "hz":
        cen = np.linspace(200, fs / 3, n)
    rf = np.array([k * fs / nfft for k in range(nfft // 2 + 1)])
    keep = fb.copy(), cen.copy(), rf.copy()
    s = shown(lambda: vis.show_fbanks(fb, cen, rf, "TI", "YL", "X1", "X2", figsize=(4, 3), fb_type=case["fb_type"], show_center_freqs=case["centres"]))
    try:
        axes = s.figs[0].axes
        main = [a for a in axes if len(a.lines)]
        if len(axes) != 2 or len(main) != 1:
            probs.append(f"{len(axes)} axes, curves on {len(main)}")
        else:
            a1 = main[0]
            a2 = [a for a in axes if a is not a1][0]
            if len(a1.lines) != n:
                probs.append(f"{len(a1.lines)} curves for {n} filters")
            else:
                probs += util.collect(util.diff(np.array([l.get_ydata() for l in a1.lines], float), keep[0], rtol=1e-12, what="curves"),
                                      util.diff(np.array([l.get_xdata() for l in a1.lines], float), np.tile(keep[2], (n, 1)), rtol=1e-12, what="reference frequencies"))
            d = labels_ok([t.get_text() for t in a2.get_xticklabels()], a2.get_xticks(), case["fb_type"])
            if d:
                probs.append("upper axis: " + d)
            if not np.allclose(a2.get_xbound(), a1.get_xbound(), rtol=1e-9) and not case["centres"]:
                probs.append(f"upper axis spans {a2.get_xbound()}, lower {a1.get_xbound()}")
            if (a1.get_title(), a1.get_xlabel(), a1.get_ylabel(), a2.get_xlabel()) != ("TI", "X1", "YL", "X2"):
                probs.append("title or axis labels are not the requested ones")
    finally:
        s.close()
    for a, b in zip((fb, cen, rf), keep):
        if not np.array_equal(a, b):
            probs.append("plotted data was modified")
    return Result(probs[:4], (case["kind"], n, nfft, fs, case["fb_type"]))
