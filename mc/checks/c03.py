"""Frequency-scale converters on dense grids: formula, monotonicity, both round trips, arrays = scalars."""
import numpy as np

from .. import core, ref
from ..core import Result

PID = "C03"
APPS = [("mel", a) for a in ("Oshaghnessy", "Lindsay")] + [("erb", "Glasberg")] + \
       [("bark", a) for a in ("Wang", "Tjomov", "Schroeder", "Terhardt", "Zwicker", "Traunmueller")]


def spaces(tier):
    step = 250
    hi = 24000 if tier == "quick" else 48000
    per = 4 if tier == "quick" else 16      # points per Hz
    out = []
    sp = core.product("hz grid", {"scale": [list(a) for a in APPS], "lo": list(range(0, hi, step))},
                      base={"mode": "hz", "step": step, "per": per})
    sp.n_states = len(sp.states) * (step * per + 1)
    out.append(sp)
    sp = core.product("scale grid", {"scale": [list(a) for a in APPS], "part": list(range(40))}, base={"mode": "sc", "n": 400 if tier == "quick" else 4000})
    sp.n_states = len(sp.states) * sp.states[0]["n"]
    out.append(sp)
    out.append(core.product("special", {"scale": [list(a) for a in APPS], "kind": ["int", "npint", "f32", "tiny", "2d", "default", "empty"]},
                            base={"mode": "special"}))
    return out


def pair(scale):
    from spafe.utils import converters as C
    kind, ap = scale
    fw, bw = getattr(C, "hz2" + kind), getattr(C, kind + "2hz")
    if kind == "mel":
        rf, rb = (lambda f: ref.hz2mel(f, ap)), (lambda v: ref.mel2hz(v, ap))
    elif kind == "erb":
        rf, rb = ref.hz2erb, ref.erb2hz
    else:
        rf, rb = (lambda f: ref.hz2bark(f, ap)), (lambda v: ref.bark2hz(v, ap))
    return (lambda f: fw(f, ap)), (lambda v: bw(v, ap)), rf, rb


def close(a, b, rtol=1e-9, atol=1e-9):
    return np.abs(np.asarray(a, float) - np.asarray(b, float)) <= atol + rtol * np.abs(np.asarray(b, float))


def run(case):
    fw, bw, rf, rb = pair(case["scale"])
    kind, ap = case["scale"]
    probs = []
    arr_back = ap != "Traunmueller"     # its inverse takes scalars only
    if case["mode"] == "hz":
        f = case["lo"] + np.arange(case["step"] * case["per"] + 1) / case["per"]
        if ap == "Zwicker":
            f = f[f > 0]
        s = np.array([float(fw(float(v))) for v in f])
        arr = np.asarray(fw(f))
        want = rf(f)
        bad = ~close(s, want)
        if bad.any():
            i = int(np.argmax(bad))
            probs.append(f"hz2{kind}({f[i]}, {ap}) = {s[i]}, published formula gives {want[i]}")
        if not (np.diff(s) > 0).all():
            i = int(np.argmin(np.diff(s) > 0))
            probs.append(f"hz2{kind} {ap} not strictly increasing at {f[i]} Hz")
        if arr.shape != s.shape or not close(arr, s, 1e-12, 1e-12).all():
            probs.append(f"hz2{kind} {ap}: array conversion differs from scalar conversion")
        back = np.array([float(bw(float(v))) for v in s])
        bad = ~close(back, f, 1e-8, 1e-6)
        if bad.any():
            i = int(np.argmax(bad))
            probs.append(f"{kind}2hz(hz2{kind}({f[i]})) = {back[i]} ({ap})")
        if arr_back:
            ab = np.asarray(bw(s))
            if ab.shape != back.shape or not close(ab, back, 1e-11, 1e-11).all():
                probs.append(f"{kind}2hz {ap}: array conversion differs from scalar conversion")
        return Result(probs, (ap, case["lo"]), validated=len(f), execs=3 * len(f))
    if case["mode"] == "sc":
        a, b = float(rf(1e-3 if ap == "Zwicker" else 0.0)), float(rf(24000.0))
        edges = np.linspace(a, b, 41)
        v = np.linspace(edges[case["part"]], edges[case["part"] + 1], case["n"])
        h = np.array([float(bw(float(x))) for x in v])
        want = rb(v)
        bad = ~close(h, want, 1e-9, 1e-7)
        if bad.any():
            i = int(np.argmax(bad))
            probs.append(f"{kind}2hz({v[i]}, {ap}) = {h[i]}, published formula gives {want[i]}")
        if not (np.diff(h) > 0).all():
            probs.append(f"{kind}2hz {ap} not strictly increasing near {v[int(np.argmin(np.diff(h) > 0))]}")
        ok = h > 0
        rt = np.array([float(fw(float(x))) for x in h[ok]])
        bad = ~close(rt, v[ok], 1e-8, 1e-8)
        if bad.any():
            i = int(np.argmax(bad))
            probs.append(f"hz2{kind}({kind}2hz({v[ok][i]})) = {rt[i]} ({ap})")
        return Result(probs, (ap, case["part"]), validated=len(v), execs=2 * len(v))
    k = case["kind"]
    if k == "int":
        xs = [1, 100, 1000, 7999, 24000]
        got = [float(fw(x)) for x in xs]
        if not close(got, rf(np.array(xs))).all():
            probs.append(f"hz2{kind} {ap} of Python ints: {got}")
    elif k == "npint":
        xs = np.array([1, 100, 1000, 7999, 24000])
        for dt in (np.int32, np.int64):
            if not close(fw(xs.astype(dt)), rf(xs)).all():
                probs.append(f"hz2{kind} {ap} of {dt.__name__} array")
        xs = np.array([1, 5, 10, 20])
        if arr_back and not close(bw(xs), rb(xs), 1e-9, 1e-7).all():
            probs.append(f"{kind}2hz {ap} of an int array")
    elif k == "f32":
        xs = np.array([1, 100.5, 1000, 7999], dtype=np.float32)
        if not close(fw(xs), rf(xs.astype(float)), 1e-3, 1e-3).all():
            probs.append(f"hz2{kind} {ap} of a float32 array")
    elif k == "tiny":
        for x in (1e-6, 1e-3, 0.5):
            if not close(fw(x), rf(x)).all():
                probs.append(f"hz2{kind} {ap} of {x}")
    elif k == "2d":
        xs = np.array([[1.0, 250.0], [1000.0, 12345.0]])
        g = np.asarray(fw(xs))
        if g.shape != xs.shape or not close(g, rf(xs)).all():
            probs.append(f"hz2{kind} {ap} of a 2-D array")
    elif k == "empty":
        g = np.asarray(fw(np.array([])))
        if g.shape != (0,):
            probs.append(f"hz2{kind} {ap} of an empty array has shape {g.shape}")
    elif k == "default":
        from spafe.utils import converters as C
        d = {"mel": lambda f: ref.hz2mel(f), "erb": ref.hz2erb, "bark": lambda f: ref.hz2bark(f)}[kind]
        e = {"mel": lambda f: ref.mel2hz(f), "erb": ref.erb2hz, "bark": lambda f: ref.bark2hz(f)}[kind]
        for x in (10.0, 440.0, 4000.0):
            if not close(getattr(C, "hz2" + kind)(x), d(x)).all():
                probs.append(f"hz2{kind} default approach at {x}")
            v = float(d(x))
            if not close(getattr(C, kind + "2hz")(v), e(v), 1e-9, 1e-7).all():
                probs.append(f"{kind}2hz default approach at {v}")
    return Result(probs, (ap, k))
