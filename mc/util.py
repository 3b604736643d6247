"""Signals, comparison helpers and calling conventions shared by the checks."""
import functools

import numpy as np


# ------------------------------------------------------------------------------------------ signals
_BASE = {}


def lcg(n, seed=1):
    """Deterministic broad-band noise in [-1, 1) (a fixed 64-bit LCG: no library randomness)."""
    have = _BASE.get(seed)
    if have is None or len(have) < n:
        m = max(n, 16384)
        s = (seed * 2862933555777941757 + 3037000493) & 0xFFFFFFFFFFFFFFFF
        v = []
        for i in range(m):
            s = (s * 6364136223846793005 + 1442695040888963407) & 0xFFFFFFFFFFFFFFFF
            v.append(s >> 33)
        x = np.array(v, dtype=float) / float(1 << 31) * 2 - 1
        x.setflags(write=False)
        _BASE[seed] = have = x
    return have[:n]


def signal(name, n):
    """The alphabet of test signals, by name (so that cases stay small and replayable)."""
    t = np.arange(n)
    if name.startswith("faint"):
        e, name = name[5:].split("_", 1)
        return signal(name, n) * float(e)
    if name.startswith("noise"):
        k = int(name[5:] or 1)
        return lcg(n, k).copy()
    if name.startswith("int16_"):
        return np.round(signal(name[6:], n) * 20000).astype(np.int16)
    if name.startswith("full16_"):
        return np.where(signal(name[7:], n) >= 0, 32767, -32768).astype(np.int16)
    if name.startswith("int32_"):
        return np.round(signal(name[6:], n) * 2.0e9).astype(np.int32)
    if name.startswith("f32_"):
        return signal(name[4:], n).astype(np.float32)
    if name.startswith("loud_"):
        return signal(name[5:], n) * 30000.0
    if name.startswith("quiet_"):
        return signal(name[6:], n) * 1e-4
    if name.startswith("off_"):
        return signal(name[4:], n) + 0.7
    if name == "chirp":      # broad band inside every frame: swept tone + noise floor
        return np.sin(2 * np.pi * (0.01 * t + 0.2 * t * t / max(1, n))) * 0.5 + 0.2 * lcg(n, 7)
    if name == "voiced":
        return (0.6 * np.sin(2 * np.pi * 0.013 * t) + 0.3 * np.sin(2 * np.pi * 0.026 * t + 1) + 0.15 * lcg(n, 5)) \
            * (1 + 0.5 * np.sin(2 * np.pi * t / 900.0))
    if name == "burst":      # level changes by 60 dB between parts
        return lcg(n, 3) * np.where((t // 700) % 2 == 0, 1.0, 1e-3)
    if name == "decay":
        return lcg(n, 11) * np.exp(-t / 600.0)
    if name == "zeros":
        return np.zeros(n)
    if name == "ones":
        return np.ones(n)
    if name == "dc16":
        return np.full(n, 1000, np.int16)
    if name == "nyq":
        return np.where(t % 2 == 0, 1.0, -1.0)
    if name == "nyq16":
        return np.where(t % 2 == 0, 32767, -32768).astype(np.int16)
    if name == "impulse":
        x = np.zeros(n)
        x[min(n - 1, 5)] = 1.0
        return x
    if name == "impulse_end":
        x = np.zeros(n)
        x[-1] = 1.0
        return x
    if name == "lsb":
        return np.sign(np.round(lcg(n, 9))).astype(np.int16)
    if name == "square":
        return np.where((t // 20) % 2 == 0, 0.5, -0.5)
    if name == "gap":
        x = lcg(n, 2).copy()
        x[n // 4:3 * n // 4] = 0
        return x
    if name == "lead":
        x = lcg(n, 2).copy()
        x[:n // 2] = 0
        return x
    if name == "trail":
        x = lcg(n, 2).copy()
        x[n // 2:] = 0
        return x
    raise KeyError(name)


# ------------------------------------------------------------------------------------------ comparison
def diff(got, want, rtol=1e-8, atol=0.0, scale=None, what="result", mask=None):
    """None, or a text describing the disagreement.  Tolerance: atol + rtol * max(|want|) of the whole array
    (scale-aware; never bitwise)."""
    try:
        g = np.asarray(got)
    except Exception as e:
        return f"{what}: not an array ({e})"
    w = np.asarray(want)
    if g.dtype == object:
        return f"{what}: object array"
    if g.shape != w.shape:
        return f"{what}: shape {g.shape}, expected {w.shape}"
    if w.size == 0:
        return None
    if mask is not None:
        g = np.where(mask, w, g)
    gf, wf = np.isfinite(g), np.isfinite(w)
    if not gf.all():
        if not (wf == gf).all():
            i = tuple(int(v) for v in np.argwhere(gf != wf)[0])
            return f"{what}: non-finite value {g[i]} at {i}, expected {w[i]}"
        g, w = np.where(gf, g, 0), np.where(wf, w, 0)
    elif not wf.all():
        i = tuple(int(v) for v in np.argwhere(~wf)[0])
        return f"{what}: {g[i]} at {i}, expected {w[i]}"
    s = float(np.max(np.abs(w))) if scale is None else scale
    tol = atol + rtol * s
    d = np.abs(g - w)
    if np.max(d) > tol:
        i = tuple(int(v) for v in np.unravel_index(int(np.argmax(d)), d.shape))
        return f"{what}: {g[i]!r} at {i}, expected {w[i]!r} (|diff| {d[i]:.3g} > tol {tol:.3g})"
    return None


def digest(*arrays):
    """Coarse digest of observed values (for counting distinct outcomes only)."""
    out = []
    for a in arrays:
        a = np.asarray(a)
        if a.dtype == object or a.size == 0:
            out.append((a.shape,))
            continue
        v = np.abs(a.astype(complex))
        v = v[np.isfinite(v)]
        out.append((a.shape, float(f"{v.sum():.4e}") if v.size else 0.0))
    return tuple(out)


def collect(*probs):
    return [p for p in probs if p]


# ------------------------------------------------------------------------------------------ representations
LAYOUTS = ["c", "stride2", "rev", "slice", "ro", "be", "stride3"]


def layout(x, kind):
    """The same values, laid out differently in memory."""
    x = np.asarray(x)
    n = len(x)
    if kind == "c":
        return np.ascontiguousarray(x).copy()
    if kind in ("stride2", "stride3"):
        k = int(kind[-1])
        buf = np.full(n * k + 3, 77, dtype=x.dtype)
        v = buf[1:1 + n * k:k]
        v[:] = x
        return v
    if kind == "rev":
        buf = np.ascontiguousarray(x[::-1]).copy()
        return buf[::-1]
    if kind == "slice":
        buf = np.full(n + 11, 55, dtype=x.dtype)
        buf[4:4 + n] = x
        return buf[4:4 + n]
    if kind == "ro":
        y = x.copy()
        y.setflags(write=False)
        return y
    if kind == "be":
        return x.astype(x.dtype.newbyteorder(">"))
    if kind == "col":       # one column of a 2-D recording
        buf = np.full((n, 2), 33, dtype=x.dtype)
        buf[:, 0] = x
        return buf[:, 0]
    if kind == "fcol":
        buf = np.full((n, 3), 33, dtype=x.dtype, order="F")
        buf[:, 1] = x
        return buf[:, 1]
    if kind == "list":
        return x.tolist()
    if kind == "tuple":
        return tuple(x.tolist())
    raise KeyError(kind)
