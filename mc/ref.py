"""Reference model of spafe: plain, direct formulas; imports nothing from spafe.

Banks also return an *ambiguity mask*: elements whose value hinges on the rounding of a comparison (a bin lying exactly
on a discontinuity).  States whose result would depend on such a comparison are left out by the model (ModelSkip), so a
re-association of floating-point operations in the implementation can never raise an alarm.
"""
import functools

import numpy as np

from .core import ModelSkip

EPS = np.finfo(float).eps


# ------------------------------------------------------------------------------------------ preprocessing
def n_samples(seconds, fs):
    return int(seconds * fs)


def frames(sig, fs, win_len, win_hop):
    L, H = n_samples(win_len, fs), n_samples(win_hop, fs)
    x = np.asarray(sig)
    n = (len(x) - L) // H + 1
    if L < 1 or H < 1 or n < 1:
        raise ModelSkip()
    return np.stack([x[i * H:i * H + L] for i in range(n)]), L


def window(n, kind):
    k = np.arange(n)
    if n == 1:
        return np.ones(1)
    if kind == "hanning":
        return 0.5 - 0.5 * np.cos(2 * np.pi * k / (n - 1))
    if kind == "hamming":
        return 0.54 - 0.46 * np.cos(2 * np.pi * k / (n - 1))
    if kind == "blackman":
        return 0.42 - 0.5 * np.cos(2 * np.pi * k / (n - 1)) + 0.08 * np.cos(4 * np.pi * k / (n - 1))
    if kind == "bartlet":
        return 1 - np.abs(2.0 * k / (n - 1) - 1)
    if kind == "kaiser":
        from scipy.special import i0
        return i0(14 * np.sqrt(np.maximum(0, 1 - (2.0 * k / (n - 1) - 1) ** 2))) / i0(14.0)
    raise KeyError(kind)


def preemph(sig, a):
    x = np.asarray(sig, dtype=float)
    y = x.copy()
    y[1:] = x[1:] - a * x[:-1]
    return y


def zero_handling(x):
    x = np.array(x, dtype=float)
    x[x == 0] = EPS
    return x


# ------------------------------------------------------------------------------------------ converters
_A = 1000 * np.log(10) / (24.7 * 4.37)


def hz2erb(f):
    return _A * np.log10(1 + np.asarray(f, float) * 0.00437)


def erb2hz(e):
    return (10.0 ** (np.asarray(e, float) / _A) - 1) / 0.00437


def hz2bark(f, ap="Wang"):
    f = np.asarray(f, dtype=float)
    if ap == "Wang":
        return 6 * np.arcsinh(f / 600)
    if ap == "Tjomov":
        return 6.7 * np.arcsinh((f + 20) / 600)
    if ap == "Schroeder":
        return 7 * np.arcsinh(f / 650)
    if ap == "Terhardt":
        return 13.3 * np.arctan(0.75 * f / 1000)
    if ap == "Zwicker":
        return 8.7 + 14.2 * np.log10(f / 1000)
    if ap == "Traunmueller":
        z = 26.81 * f / (1960 + f) - 0.53
        return z + 0.15 * np.maximum(2 - z, 0) + 0.22 * np.maximum(z - 20.1, 0)
    raise KeyError(ap)


def bark2hz(b, ap="Wang"):
    b = np.asarray(b, dtype=float)
    if ap == "Wang":
        return 600 * np.sinh(b / 6)
    if ap == "Tjomov":
        return 600 * np.sinh(b / 6.7) - 20
    if ap == "Schroeder":
        return 650 * np.sinh(b / 7)
    if ap == "Terhardt":
        return 1000 / 0.75 * np.tan(b / 13.3)
    if ap == "Zwicker":
        return 10 ** ((b - 8.7) / 14.2 + 3)
    if ap == "Traunmueller":
        z = np.where(b < 2, (b - 0.3) / 0.85, np.where(b > 20.1, (b + 0.22 * 20.1) / 1.22, b))
        return 1960 * (z + 0.53) / (26.28 - z)
    raise KeyError(ap)


_MEL = {"Oshaghnessy": (2595.0, 700.0), "Lindsay": (2410.0, 625.0)}


def hz2mel(f, ap="Oshaghnessy"):
    c, d = _MEL[ap]
    return c * np.log10(1 + np.asarray(f, float) / d)


def mel2hz(m, ap="Oshaghnessy"):
    c, d = _MEL[ap]
    return d * (10 ** (np.asarray(m, float) / c) - 1)


# ------------------------------------------------------------------------------------------ filter banks
def bins(nfft, fs):
    return np.array([k * fs / nfft for k in range(nfft // 2 + 1)])


def scale_vec(kind, centres):
    """weight of each row: j/nfilts for the j-th lowest (ascendant) centre frequency"""
    n = len(centres)
    if kind == "constant":
        return np.ones(n)
    rank = np.argsort(np.argsort(centres)) + 1
    return rank / n if kind == "ascendant" else (n + 1 - rank) / n


def _triangles(freqs, pts):
    lo, ce, hi = pts[:-2, None], pts[1:-1, None], pts[2:, None]
    f = freqs[None, :]
    fb = np.maximum(0, np.minimum((f - lo) / (ce - lo), (hi - f) / (hi - ce)))
    # a row all of whose weight sits on bins at an edge (to rounding) is ambiguous: exactly 0 or 1e-16
    tol = 1e-7 * (hi - lo)
    touching = ((f > lo - tol) & (f < hi + tol))
    amb = (fb.max(axis=1) < 1e-6) & touching.any(axis=1)
    return fb, amb


@functools.lru_cache(maxsize=4096)
def bank(kind, nfilts, nfft, fs, low=0, high=None, scale="constant", conv=None, order=4):
    """-> (weights, centres on the bank's scale, per-row ambiguity, per-element ambiguity)"""
    high = fs / 2 if not high else high
    f = bins(nfft, fs)
    elem = None
    if kind in ("mel", "imel"):
        ap = conv or "Oshaghnessy"
        pts_mel = np.linspace(hz2mel(low, ap), hz2mel(high, ap), nfilts + 2)
        pts = mel2hz(pts_mel, ap)
        if kind == "mel":
            fb, amb = _triangles(f, pts)
            cen_hz, cen = pts[1:-1], pts_mel[1:-1]
        else:
            fb, amb = _triangles(low + high - f, pts)
            cen_hz = low + high - pts[1:-1]
            cen = hz2mel(cen_hz, ap)
    elif kind == "lin":
        pts = np.linspace(low, high, nfilts + 2)
        fb, amb = _triangles(f, pts)
        cen_hz = cen = pts[1:-1]
    elif kind == "bark":
        ap = conv or "Wang"
        cen = np.linspace(hz2bark(low, ap), hz2bark(high, ap), nfilts)
        if not np.all(np.isfinite(cen)):
            raise ModelSkip()
        edge = (nfft + 1) * (bark2hz(np.array([cen[0], cen[-1]]), ap) / fs)
        k = np.arange(nfft // 2 + 1)
        zb = hz2bark(k * fs / (nfft + 1), ap)
        with np.errstate(invalid="ignore"):
            d = zb[None, :] - cen[:, None]
        fb = np.where((d < -1.3) | (d > 2.5), 0.0,
                      np.where(d <= -0.5, 10 ** (2.5 * (np.clip(d, -1.3, 2.5) + 0.5)),
                               np.where(d < 0.5, 1.0, 10 ** (0.5 - np.clip(d, -1.3, 2.5)))))
        elem = (np.abs(d + 1.3) < 1e-9) | (np.abs(d - 2.5) < 1e-9)
        lo_k, hi_k = np.floor(edge[0] + 1e-7), np.floor(edge[1] + 1e-7)
        covered = (k >= lo_k) & (k < hi_k)
        fb = fb * covered[None, :]
        for e in edge:      # a band limit that falls on a bin boundary: that bin may or may not be covered
            if abs(e - np.round(e)) < 1e-6:
                kk = int(np.round(e))
                for q in (kk - 1,):
                    if 0 <= q <= nfft // 2:
                        elem[:, q] = True
        cen_hz = cen
        amb = np.zeros(nfilts, bool)
        mx = np.where(elem, 0, fb).max(axis=1)
        amb = (mx == 0) & (elem & True).any(axis=1)
    elif kind == "gam":
        EarQ, minBW = 9.26449, 24.7
        c = EarQ * minBW
        m = np.arange(nfilts, 0, -1)
        cen_hz = (high + c) * ((low + c) / (high + c)) ** (m / nfilts) - c
        bw = 1.019 * 2 * np.pi * ((cen_hz / EarQ) ** order + minBW ** order) ** (1 / order)
        T = 1.0 / fs
        z = np.exp(2j * np.pi * np.arange(nfft // 2 + 1) / nfft)[None, :]
        r = np.exp(-bw * T)[:, None]
        th = (2 * np.pi * cen_hz * T)[:, None]
        num = np.ones_like(z)
        for s in (1, -1):
            for q in (np.sqrt(3 + 2 ** 1.5), np.sqrt(3 - 2 ** 1.5)):
                num = num * (z - r * (np.cos(th) + s * q * np.sin(th)))
        den = (z - r * np.exp(1j * th)) * (z - r * np.exp(-1j * th))
        fb = np.abs(num) / np.abs(den) ** 4
        fb = fb / fb.max(axis=1, keepdims=True)
        cen = hz2erb(cen_hz)
        amb = np.zeros(nfilts, bool)
    else:
        raise KeyError(kind)
    if elem is None:
        elem = np.zeros(fb.shape, bool)
    fb = fb * scale_vec(scale, cen_hz)[:, None]
    for a in (fb, cen, amb, elem):
        a.setflags(write=False)
    return fb, cen, amb, elem


# ------------------------------------------------------------------------------------------ spectra
def analysis_frames(cfg, sig):
    """pre-emphasised, framed, windowed signal"""
    x = np.asarray(sig, dtype=float)
    if cfg["pre_emph"]:
        x = preemph(x, cfg["coeff"])
    wl, wh, wt = cfg["win"] or (0.025, 0.01, "hamming")
    fr, L = frames(x, cfg["fs"], wl, wh)
    return fr * window(L, wt)[None, :]


def half_spectrum(w, nfft):
    return np.fft.rfft(w, nfft, axis=1)


def dft_half(w, nfft):
    """explicit DFT (no FFT), used for small sizes"""
    x = w[:, :nfft]
    n = np.arange(x.shape[1])
    return np.stack([(x * np.exp(-2j * np.pi * k * n / nfft)).sum(axis=1) for k in range(nfft // 2 + 1)], axis=1)


def spectrogram(kind, cfg, sig, fb=None, power=2):
    S = np.abs(half_spectrum(analysis_frames(cfg, sig), cfg["nfft"]))
    P = S ** power / cfg["nfft"]
    if fb is None:
        fb, _, amb, elem = bank(kind, cfg["nfilts"], cfg["nfft"], cfg["fs"], cfg["low"], cfg["high"], cfg["scale"],
                                cfg.get("conv"))
        if amb.any() or elem.any():
            raise ModelSkip()
    return P @ np.asarray(fb).T, S


# ------------------------------------------------------------------------------------------ cepstra
@functools.lru_cache(maxsize=512)
def dct_matrix(n, kind):
    k = np.arange(n)[:, None]
    m = np.arange(n)[None, :]
    if kind == 2:
        M = np.sqrt(2 / n) * np.cos(np.pi * k * (2 * m + 1) / (2 * n))
        M[0] /= np.sqrt(2)
    elif kind == 3:
        M = dct_matrix(n, 2).T
    elif kind == 4:
        M = np.sqrt(2 / n) * np.cos(np.pi * (2 * k + 1) * (2 * m + 1) / (4 * n))
    elif kind == 1:
        M = np.sqrt(2 / (n - 1)) * np.cos(np.pi * k * m / (n - 1))
        M[:, [0, -1]] /= np.sqrt(2)
        M[[0, -1], :] /= np.sqrt(2)
    else:
        raise KeyError(kind)
    return M


def dct(x, kind, num):
    return (x @ dct_matrix(x.shape[1], kind).T)[:, :num]


def lifter(c, lift):
    n = np.arange(c.shape[1], dtype=float)
    if lift == 0 or lift > 10:
        return c * 1.0
    if lift > 0:
        v = n ** lift
        v[0] = 1.0
    else:
        L = int(-lift)
        v = 1 + (L / 2.0) * np.sin(np.pi * (n + 1) / L)
    return c * v


def normalize(c, kind):
    if kind in ("mvn", "ms"):
        out = c - c.mean(axis=0)
    elif kind == "mn":
        out = (c - c.mean()) / (c.max() - c.min())
    else:
        out = c * 1.0
    if kind in ("mvn", "vn"):
        out = out / np.sqrt(np.mean((c - c.mean()) ** 2))
    return out


def post(c, cfg, S=None):
    """energy -> lifter -> normalisation"""
    c = np.array(c, dtype=float)
    if cfg.get("energy"):
        c[:, 0] = np.log(zero_handling((S ** 2).sum(axis=1) / cfg["nfft"]))
    if cfg.get("lifter"):
        c = lifter(c, cfg["lifter"])
    if cfg.get("norm"):
        c = normalize(c, cfg["norm"])
    return c


BANK_OF = {"mfcc": "mel", "imfcc": "imel", "lfcc": "lin", "gfcc": "gam", "bfcc": "bark", "ngcc": "gam",
           "msrcc": "mel", "psrcc": "mel", "pncc": "gam", "plp": "bark", "rplp": "bark"}


def loudness(w):
    return (w ** 2 + 56.8e6) * w ** 4 / ((w ** 2 + 6.3e6) * (w ** 2 + 0.38e9) * (w ** 6 + 9.58e26))


def fbcc(name, cfg, sig, fb=None):
    """MFCC, IMFCC, LFCC, GFCC, BFCC, NGCC, MSRCC, PSRCC"""
    if name == "psrcc":
        X = half_spectrum(analysis_frames(cfg, sig), cfg["nfft"])
        S = np.abs(X)
        if fb is None:
            fb, _, amb, elem = bank("mel", cfg["nfilts"], cfg["nfft"], cfg["fs"], cfg["low"], cfg["high"],
                                    cfg["scale"], cfg.get("conv"))
            if amb.any() or elem.any():
                raise ModelSkip()
        fb = np.asarray(fb)
        ph = np.degrees(np.angle(X))
        ph = np.where(ph < 0, ph + 360, ph)
        # phases at the 0/360 wrap (or of a zero) hinge on rounding: out of the model's domain where they matter
        wrap = (np.abs(X.imag) < 1e-9 * (np.abs(X) + 1e-300)) & (X.real > 0) | (S < 1e-9 * S.max())
        # the DC and Nyquist bins of a real frame are exactly real
        real_bins = np.zeros(X.shape[1], bool)
        real_bins[0] = True
        if cfg["nfft"] % 2 == 0:
            real_bins[-1] = True
        wrap[:, real_bins] = False
        if (wrap & (np.abs(fb).max(axis=0) > 1e-12)[None, :]).any():
            raise ModelSkip()
        B = ph @ fb.T
        Y = zero_handling(B) ** cfg["gamma"]
        Y = np.where(np.isnan(Y), 0, Y)
    else:
        B, S = spectrogram(BANK_OF[name], cfg, sig, fb)
        if name in ("mfcc", "imfcc", "lfcc", "ngcc"):
            Y = np.log(zero_handling(B))
        elif name == "gfcc":
            Y = np.cbrt(B) if (B >= 0).all() else np.power(B, 1 / 3)
        elif name == "bfcc":
            Y = np.log(zero_handling(loudness(B) ** (1 / 3)))
        elif name == "msrcc":
            Y = zero_handling(B) ** cfg["gamma"]
    return post(dct(Y, cfg["dct"], cfg["num_ceps"]), cfg, S)


# ------------------------------------------------------------------------------------------ LPC family
def autocorr(x, p):
    n = len(x)
    return np.array([np.dot(x[:n - k], x[k:]) if k < n else 0.0 for k in range(p + 1)])


def lpc_frame(x, order):
    """order = number of predictor coefficients.  -> a (order+1), error energy, condition number"""
    r = autocorr(np.asarray(x, float), order)
    if r[0] == 0:
        return np.r_[1.0, np.zeros(order)], 0.0, 1.0
    if order == 0:
        return np.ones(1), r[0], 1.0
    R = r[np.abs(np.arange(order)[:, None] - np.arange(order)[None, :])]
    cond = np.linalg.cond(R)
    a = np.r_[1.0, np.linalg.solve(R, -r[1:])]
    return a, abs(np.dot(r, a)), cond


def lpc2lpcc(a, e, n):
    c = np.zeros(n)
    A = lambda j: a[j] if j < len(a) else 0.0
    c[0] = np.log(e if e != 0 else EPS)
    for m in range(1, n):
        c[m] = A(m) + sum(k / m * c[k] * A(m - k) for k in range(1, m))
    return c


def rasta(x):
    num = np.array([0.2, 0.1, 0.0, -0.1, -0.2])
    x = np.asarray(x, float)
    y = np.zeros_like(x)
    for i in range(x.shape[0]):
        get = lambda t: x[i, t] if t >= 0 else x[i, 0]
        for t in range(4, x.shape[1]):
            fir = sum(num[k] * get(t - k) for k in range(5))
            y[i, t] = fir + (0.94 * y[i, t - 1] if t > 4 else 0.0)
    return y


def plp(cfg, sig, rasta_on, fb=None):
    B, _ = spectrogram("bark", cfg, sig, fb)
    if rasta_on:
        B = np.exp(rasta(np.log(zero_handling(B))))
    L = np.abs(loudness(B)) ** (1 / 3)
    n, nfft = L.shape[1], cfg["nfft"]
    X = np.zeros((L.shape[0], nfft))
    X[:, :min(n, nfft)] = L[:, :nfft]
    t = np.abs(np.fft.ifft(X, axis=1))
    rows, cond = [], 0
    for f in t:
        a, e, k = lpc_frame(f, cfg["order"] - 1)
        cond = max(cond, k)
        rows.append(lpc2lpcc(a, e, cfg["order"]))
    c = np.array(rows)
    if cfg.get("lifter") is not None:
        c = lifter(c, cfg["lifter"])
    if cfg.get("norm"):
        c = normalize(c, cfg["norm"])
    return c, cond


# ------------------------------------------------------------------------------------------ PNCC
def medium_time(P, M=2):
    n = len(P)
    return np.array([sum(P[j] for j in range(m - M, m + M + 1) if 0 <= j < n) / (2 * M + 1) for m in range(n)])


def asym_lp(Q, la=0.999, lb=0.5):
    Q = np.asarray(Q, float)
    out = np.zeros_like(Q)
    out[0] = 0.9 * Q[0]
    for m in range(1, len(Q)):
        lam = np.where(Q[m] >= out[m - 1], la, lb)
        out[m] = lam * out[m - 1] + (1 - lam) * Q[m]
    return out


def tmask(Q, lam=0.85, mu=0.2):
    Q = np.asarray(Q, float)
    out = Q.copy()
    peak = Q[0].copy()
    for m in range(1, len(Q)):
        out[m] = np.where(Q[m] < lam * peak, mu * peak, Q[m])
        peak = np.maximum(lam * peak, Q[m])
    return out


def wsmooth(R, Q, N=4, nfilts=None):
    L = R.shape[1] if nfilts is None else nfilts
    W = np.asarray(R, float) / zero_handling(Q)
    out = np.zeros(R.shape)
    for l in range(R.shape[1]):
        sel = [j for j in range(L) if abs(j - l) <= N]
        out[:, l] = W[:, sel].mean(axis=1)
    return out


def meanpow(T, lam=0.999, k=1, nfilts=None):
    L = T.shape[1] if nfilts is None else nfilts
    mu = 1e-4
    out = np.zeros(T.shape)
    for m in range(len(T)):
        if m:
            mu = lam * mu + (1 - lam) * T[m, :L].sum() / L
        out[m] = k * T[m] / mu
    return out


def ansm(Q, threshold=0):
    le = asym_lp(Q, 0.999, 0.5)
    d = Q - le
    Q0 = np.where(d < threshold, 0.0, d)
    return np.where(Q >= 2 * le, tmask(Q0), asym_lp(Q0))


def pncc_parts(cfg, sig, fb=None):
    P, _ = spectrogram("gam", cfg, sig, fb, power=cfg.get("power", 2))
    Q = medium_time(P)
    # decisions of the noise suppression that hinge on rounding are out of the model's domain
    le = asym_lp(Q)
    if len(Q) > 1:
        prev = le[:-1]
        near = np.abs(Q[1:] - prev) < 1e-9 * (np.abs(Q[1:]) + np.abs(prev))
        near2 = np.abs(Q - 2 * le) < 1e-9 * (np.abs(Q) + np.abs(le))
        if near.any() or near2.any():
            raise ModelSkip()
    R = ansm(Q)
    return P, Q, R


def pncc(cfg, sig, fb=None):
    P, Q, R = pncc_parts(cfg, sig, fb)
    U = meanpow(P * wsmooth(R, Q))
    V = U ** (1 / 15)
    return post(dct(V, cfg["dct"], cfg["num_ceps"]), cfg)


# ------------------------------------------------------------------------------------------ constant Q
def cqt_freqs(cfg):
    nb = cfg["bpo"]
    high = cfg["high"] or cfg["fs"] / 2
    f = cfg["f0"] * 2.0 ** (np.arange(cfg["octaves"] * nb) / nb)
    # frequencies at the band limits to rounding: ambiguous
    lo = cfg["low"]
    # (a bin at a whole number of octaves above f0 is exact: the band includes its limits)
    exact = np.arange(len(f)) % nb == 0
    amb = ((np.abs(f - high) < 1e-9 * high) & ~(exact & (f == high))).any() or (lo > 0 and ((np.abs(f - lo) < 1e-9 * lo) & ~(exact & (f == lo))).any())
    f = f[(f >= lo) & (f <= high)]
    q = cfg["q"] / (2 ** (1.0 / nb) - 1)
    x = q * cfg["fs"] / f
    amb = amb or (np.abs(x - np.round(x)) < 1e-7 * x).any()
    if amb:
        raise ModelSkip()
    n = np.ceil(x).astype(int)
    keep = n <= cfg["nfft"]
    if not keep.any():
        raise ModelSkip()
    return f[keep], n[keep]


def cqt_kernel(cfg, wt):
    f, n = cqt_freqs(cfg)
    nfft, fs = cfg["nfft"], cfg["fs"]
    K = np.zeros((len(f), nfft), complex)
    for k, (fk, nk) in enumerate(zip(f, n)):
        s = (nfft - nk) // 2
        t = np.arange(nk)
        K[k, s:s + nk] = window(nk, wt) * np.exp(2j * np.pi * fk / fs * t) / nk
    S = np.fft.fft(K, axis=1)
    mag = np.abs(S)
    thr = cfg["thr"]
    if (np.abs(mag - thr) < 1e-11).any() and thr > 0:
        raise ModelSkip()
    S[mag <= thr] = 0
    return f, S, K


def cqt(cfg, sig):
    w = analysis_frames(cfg, sig)
    wt = (cfg["win"] or (0, 0, "hamming"))[2]
    _, S, _ = cqt_kernel(cfg, wt)
    X = np.fft.fft(w[:, :cfg["nfft"]], cfg["nfft"], axis=1)
    return np.conj(S) @ X.T / cfg["nfft"]


def cqt_noise(cfg, sig):
    """Rounding allowance of the constant-Q values: where frame and kernel hardly overlap the value is what cancellation leaves."""
    a = np.abs(analysis_frames(cfg, sig))
    return 1e-14 * float(a.max()) if a.size else 0.0


def cqcc_noise(cfg, sig):
    """The same for the coefficients: the logarithm turns it into a relative error of the smallest value."""
    V = np.abs(cqt(cfg, sig))
    V = V[V > 0]
    if not V.size:
        return 0.0
    r = 4 * cqt(cfg, sig).shape[0] * 0.1 * cqt_noise(cfg, sig) / V.min()
    if r > 1e-3:
        raise ModelSkip()
    return r


def resample(x, num):
    N = len(x)
    X = np.fft.rfft(x, axis=0)
    n = min(num, N)
    Y = np.zeros((num // 2 + 1,) + x.shape[1:], complex)
    m = n // 2 + 1
    Y[:m] = X[:m]
    if n % 2 == 0 and num != N:
        Y[n // 2] *= 2 if num < N else 0.5
    return np.fft.irfft(Y, num, axis=0) * num / N


def cqcc(cfg, sig):
    C = np.abs(cqt(cfg, sig)) ** 2
    L = np.log(zero_handling(C.T))
    num = int(len(L) * cfg["ratio"])
    if num < 1:
        raise ModelSkip()
    if num != len(L):
        L = resample(L, num)
    return post(dct(L, cfg["dct"], cfg["num_ceps"]), cfg)


# ------------------------------------------------------------------------------------------ pitch
def yin_difference(x, tau_max):
    x = np.asarray(x, float)
    n = len(x)
    return np.array([((x[:n - t] - x[t:]) ** 2).sum() for t in range(min(tau_max, n))])


def yin_cmnd(d):
    d = np.asarray(d, float)
    out = np.ones(len(d))
    c = 0.0
    for t in range(1, len(d)):
        c += d[t]
        out[t] = d[t] * t / c if c != 0 else np.nan
    return out


def yin_pitch(c, lo, hi, thr):
    t = lo
    while t < hi:
        if c[t] < thr:
            while t + 1 < hi and c[t + 1] < c[t]:
                t += 1
            return t
        t += 1
    return 0
