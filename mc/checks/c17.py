"""Schedules: two calls in two threads under a controlled scheduler that can switch before every executed source line (every
byte code in the thorough tier) of the library; all schedules within the preemption bound, results compared with sequential ones."""
import sys
import threading

import numpy as np

from .. import api, core, ops, util
from ..core import Result, ModelSkip
from .c16 import forked, key, same_args, snapshot

PID = "C17"
CASE_LIMIT = 600
WAIT = 60.0

CROSS = ["mel_filter_banks", "inverse_mel_filter_banks", "linear_filter_banks", "bark_filter_banks", "gammatone_filter_banks", "mfcc", "imfcc", "lfcc", "gfcc", "bfcc", "ngcc",
         "msrcc", "psrcc", "pncc", "cqcc", "lpc", "lpcc", "plp", "rplp", "mel_spectrogram", "erb_spectrogram", "framing", "windowing", "normalize_ceps", "rasta_filter",
         "compute_yin", "extract_feats", "get_dominant_frequencies", "deltas"]

QCROSS = ["mel_filter_banks", "inverse_mel_filter_banks", "bark_filter_banks", "gammatone_filter_banks", "mfcc", "imfcc", "gfcc", "bfcc", "psrcc", "pncc", "lpcc", "rplp",
          "erb_spectrogram", "framing", "normalize_ceps", "compute_yin", "extract_feats"]


def second(name):
    """another configuration of the same function for the other thread"""
    vs = ops.variants(name)
    pref = [v for v in vs if set(v) & {"nfilts", "nfft", "fs", "low", "scale", "win"} and v.get("win", 1)]
    return pref


def spaces(tier):
    q = tier == "quick"
    cases = []
    for n in ops.NAMES:
        if not ops.has(n):
            continue
        vs = ops.variants(n)
        a = [n, vs[0]]
        others = [vs[0]] + [v for v in vs[1:] if v.get("win", 1) is not None][:(2 if q else 40)]
        for v in others:
            cases.append({"a": a, "b": [n, v], "points": "all", "pre": 1})
            if v != vs[0]:
                cases.append({"a": [n, v], "b": a, "points": "lines", "pre": 1})
    sp1 = core.Space("same function, two threads", cases, 0, "1 preemption, before every executed source line; same function with same and different configuration and data")
    names = [n for n in (CROSS if not q else QCROSS) if ops.has(n)]
    cross = [{"a": [x, ops.variants(x)[0]], "b": [y, ops.variants(y)[0]], "points": "lines", "pre": 1} for x in names for y in names if x != y]
    sp2 = core.Space("two functions, two threads", cross, 0, "1 preemption, before the first execution of every source line; all ordered pairs of functions")
    shared = []
    for n in ops.NAMES:
        if ops.has(n):
            vs = ops.variants(n)
            vv = [vs[0]] + [v for v in vs if v.get("fbank")][:1] + [v for v in vs[1:] if v.get("win", 1) is not None and "sigdtype" not in v][:(1 if q else 6)]
            shared += [{"a": [n, v], "b": [n, w], "points": "lines" if q else "all", "pre": 1, "shared": 1} for v, w in [(x, x) for x in vv] + [(vv[0], x) for x in vv[1:]]]
    sp3 = core.Space("same objects, two threads", shared, 0, "1 preemption; both threads hold the same signal, window object and bank")
    coldc = [{"a": [n, ops.variants(n)[0]], "b": [n, v], "points": "lines", "pre": 1, "cold": 1} for n in ops.NAMES if ops.has(n) for v in ops.variants(n)[:(1 if q else 3)]]
    sp4 = core.Space("first calls of a process", coldc, 0, "1 preemption, before the first execution of every source line; every schedule in a fresh process, so state built on first use is "
                     "built under the scheduler")
    out = [sp1, sp2, sp3, sp4]
    two = [{"a": [n, ops.variants(n)[0]], "b": [n, (second(n) or ops.variants(n))[0]], "points": "calls" if q else "lines", "pre": 2} for n in ops.NAMES if ops.has(n)]
    out.append(core.Space("same function, two preemptions", two, 0, "2 preemptions (A, B, A, B), at every pair of " +
                          ("library function entries and exits" if q else "source lines (first execution)")))
    if not q:
        op = [{"a": [n, ops.variants(n)[0]], "b": [n, v], "points": "opcodes", "pre": 1} for n in ops.NAMES if ops.has(n) for v in ops.variants(n)[:2]]
        out.append(core.Space("byte-code granularity", op, 0, "1 preemption, before the first execution of every byte code of every function"))
    slow = ("rplp", "plp", "bfcc", "bark_spectrogram", "bark_filter_banks", "cqcc", "cqt_spectrogram", "pncc")
    for s in out:
        s.count_validated = True
        s.states.sort(key=lambda c: c["a"][0] not in slow)
    return out


class Tracer:
    """counts scheduling points of the thread it is installed in; calls `hook` when the point `target` is reached"""

    def __init__(self, target=-1, hook=None, opcodes=False):
        self.n, self.target, self.hook, self.opcodes = 0, target, hook, opcodes
        self.keys, self.depth = [], []

    def point(self, frame):
        if self.hook is None:
            self.depth.append(id(frame))
            self.keys.append((frame.f_code.co_filename, frame.f_lineno, frame.f_lasti if self.opcodes else -1))
        elif self.n == self.target:
            h, self.hook = self.hook, (lambda: None)
            self.target = -2
            h()
        self.n += 1

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point(frame)
        return self.local

    def __call__(self, frame, event, arg):
        if event == "call" and "/spafe/" in frame.f_code.co_filename:
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None


def traced(op, args, tr):
    sys.settrace(tr)
    try:
        return ops.invoke(op, args)
    finally:
        sys.settrace(None)


def points(op, seed, how):
    tr = Tracer(opcodes=how == "opcodes")
    traced(op, ops.make(op, seed), tr)
    if how == "all":
        return list(range(len(tr.keys)))
    if how == "calls":
        seen, out = set(), []
        for i, k in enumerate(tr.keys):       # first time control passes between two given library functions, at a given line
            sw = (tr.keys[i - 1][:2], k[:2]) if i and tr.depth[i] != tr.depth[i - 1] else None
            if i in (0, len(tr.keys) - 1) or sw and sw not in seen:
                out.append(i)
            seen.add(sw)
        return out
    first = {}
    for i, k in enumerate(tr.keys):
        first.setdefault(k, i)
    return sorted(first.values())


class Stuck(Exception):
    pass


def make_args(A, B, shared):
    a, b = ops.make(A, 1), ops.make(B, 1 if shared else 2)
    if shared:                      # both threads hold the very same objects
        for k, v in b.items():
            w = a.get(k)
            if isinstance(v, np.ndarray) and isinstance(w, np.ndarray) and v.dtype == w.dtype and np.array_equal(v, w) or \
                    v is not None and not isinstance(v, np.ndarray) and w is not None and not isinstance(w, np.ndarray) and ops.wkey(v) == ops.wkey(w):
                b[k] = w
    return a, b


PATIENCE = [1.5]      # how long the preempting thread may take before it counts as blocked (on a lock the preempted one holds)


def blocked():
    PATIENCE[0] = 0.05


def schedule1(A, B, args, k, opc):
    """A up to point k, then B completely (or until it blocks), then the rest of A; if A ends before k, B follows A"""
    box = {}

    def runb():
        try:
            box["b"] = ops.invoke(B, args[1])
        except BaseException as e:
            box["e"] = e

    t = threading.Thread(target=runb, daemon=True)

    def hook():
        t.start()
        t.join(PATIENCE[0])
        if t.is_alive():
            blocked()
    ra = traced(A, args[0], Tracer(k, hook, opc))
    if t.ident is None:
        t.start()
    t.join(WAIT)
    if t.is_alive():
        raise Stuck()
    if "e" in box:
        raise box["e"]
    return ra, box["b"]


def schedule2(A, B, args, k, j, opc):
    """A up to k, B up to j, A to its end (or until it blocks), B to its end"""
    at_j, a_done = threading.Event(), threading.Event()
    box = {}

    def runb():
        def pause():
            at_j.set()
            if not a_done.wait(PATIENCE[0]):
                blocked()
        try:
            box["b"] = traced(B, args[1], Tracer(j, pause, opc))
        except BaseException as e:
            box["e"] = e
        at_j.set()

    t = threading.Thread(target=runb, daemon=True)

    def hook():
        t.start()
        if not at_j.wait(PATIENCE[0]):
            blocked()
    try:
        ra = traced(A, args[0], Tracer(k, hook, opc))
    finally:
        a_done.set()
    if t.ident is None:
        t.start()
    t.join(WAIT)
    if t.is_alive():
        raise Stuck()
    if "e" in box:
        raise box["e"]
    return ra, box["b"]


def one(A, B, k, j, case, wa, wb):
    """one schedule -> problems"""
    opc = case["points"] == "opcodes"
    at = f"switch at point {k}" + (f"/{j}" if j is not None else "")
    args = make_args(A, B, case.get("shared"))
    snaps = [snapshot(a) for a in args]
    try:
        ra, rb = schedule1(A, B, args, k, opc) if j is None else schedule2(A, B, args, k, j, opc)
    except Stuck:
        return [f"threads did not finish: {A[0]} preempted, {at}"]
    except Exception as e:
        return [f"{A[0]} / {B[0]}: {type(e).__name__}: {str(e)[:100]}, {at}"]
    probs = []
    for who, op, got, want in (("preempted", A, ra, wa), ("preempting", B, rb, wb)):
        for i, (g, w) in enumerate(zip(got, want)):
            d = util.diff(g, w, rtol=1e-10, atol=1e-13, what=f"{op[0]} {op[1]} ({who}) output {i}, {at}")
            if d:
                probs.append(d)
    for a, s in zip(args, snaps):
        d = same_args(a, s)
        if d:
            probs.append(f"{A[0]} / {B[0]}: {d}, {at}")
    return probs


BASE = {}


def baseline(op, seed):
    k = key(op, seed)
    if k not in BASE:
        BASE[k] = forked(lambda: ops.invoke(op, ops.make(op, seed)))
    return BASE[k]


def run(case):
    """The worker itself never calls the library: sequential results, the schedules of a case (warm) and, if `cold`, every single
    schedule are computed in forked children, so that lazily built state is built under the scheduler."""
    A, B = case["a"], case["b"]
    wa, wb = baseline(A, 1), baseline(B, 1 if case.get("shared") else 2)
    for op, w in ((A, wa), (B, wb)):
        if isinstance(w, tuple):
            return Result([f"{op}: alone in a fresh process: {w[1]}"], "raise")
    cold = case.get("cold")

    def pts():
        return points(A, 1, case["points"]), ([None] if case["pre"] == 1 else points(B, 2, case["points"]))

    def warm():
        pa, pb = pts()
        probs, n = [], 0
        for k in pa:
            for j in pb:
                probs += one(A, B, k, j, case, wa, wb)
                n += 1
                if len(probs) > 3:
                    return probs, n, len(pa)
        return probs, n, len(pa)

    if not cold:
        r = forked(warm, CASE_LIMIT - 20)
        if len(r) == 2:
            return Result([f"{A[0]} / {B[0]}: {r[1]}"], "raise")
        probs, n, m = r
        return Result(probs[:4], (A[0], m), validated=n, execs=n + 3)
    r = forked(pts)
    if isinstance(r[0], str):
        return Result([f"{A[0]}: {r[1]}"], "raise")
    pa, pb = r
    probs, n = [], 0
    for k in pa:
        for j in pb:
            q = forked(lambda: one(A, B, k, j, case, wa, wb))
            n += 1
            probs += [f"{A[0]} / {B[0]}: {q[1]}, switch at {k}"] if isinstance(q, tuple) else q
            if len(probs) > 3:
                break
        if len(probs) > 3:
            break
    return Result(probs[:4], (A[0], len(pa)), validated=n, execs=n + 3)
