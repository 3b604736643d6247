"""Histories: all ordered pairs (quick) / triples (thorough) of API operations, with shared arguments, with in-place
overwriting of inputs and results between the calls, with buffer and window-object reuse and with rejected calls; each history
starts from a fresh process image and every result is compared with the result of that call alone in a fresh process."""
import json
import os
import pickle
import random

import numpy as np

from .. import api, core, ops, util
from ..core import Result, ModelSkip

PID = "C16"
BASE = {}
IDENTITY_OK = {"lifter_ceps"}      # liftering with nothing to do may hand back its argument


def key(op, seed):
    return json.dumps([op, seed], sort_keys=True)


def forked(f, limit=100):
    """run f() in a forked child, return its pickled result"""
    return finish(start(f, limit))


def start(f, limit=100):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.alarm(limit)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            data = pickle.dumps(f())
        except BaseException as e:
            data = pickle.dumps(("exc", f"{type(e).__name__}: {e}"))
        try:
            with os.fdopen(w, "wb") as h:
                h.write(data)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def finish(h):
    pid, r = h
    with os.fdopen(r, "rb") as h:
        data = h.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) or not data:
        return ("exc", f"child ended abnormally (status {status})")
    return pickle.loads(data)


def baseline(op, seed):
    k = key(op, seed)
    if k not in BASE:
        BASE[k] = forked(lambda: ops.invoke(op, ops.make(op, seed)))
    return BASE[k]


def all_ops(names, every=True):
    return [[n, v] for n in names if ops.has(n) for v in (ops.variants(n) if every else ops.variants(n)[:1])]


def pairs_space(name, pairs, modes, n):
    sp = core.Space(name, [{"hist": list(p), "mode": m} for p in pairs for m in modes], 0, f"all {n} ordered histories x modes {modes}")
    return sp


REDUCED = ["mel_filter_banks", "inverse_mel_filter_banks", "bark_filter_banks", "gammatone_filter_banks", "linear_filter_banks", "mfcc", "imfcc", "gfcc", "bfcc", "psrcc", "pncc",
           "cqcc", "lpcc", "rplp", "mel_spectrogram", "framing", "windowing", "normalize_ceps", "rasta_filter", "compute_yin", "extract_feats", "get_dominant_frequencies"]


def spaces(tier):
    q = tier == "quick"
    out = []
    # 1. every operation twice, same object arguments, buffers rewritten in between
    single = all_ops(ops.NAMES)
    out.append(core.Space("buffer reuse, repetition", [{"hist": [o], "mode": m} for o in single for m in ("reuse", "repeat", "window")], len(single) * 3,
                          "every operation: same buffer with new contents, same call three times, mutated window object"))
    out.append(core.Space("special contents", [{"hist": [o], "mode": "pure", "flavours": ops.FLAVOURS} for o in single], len(single) * len(ops.FLAVOURS),
                          f"every operation on arguments of {len(ops.FLAVOURS)} kinds of contents (silence, gaps, signed zeros, integers, extreme levels, layouts)"))
    out[-1].n_states = out[-1].transitions = len(single) * len(ops.FLAVOURS)
    out.append(core.Space("perturbed contents", [{"hist": [o], "mode": "perturb", "kinds": ops.PERTURB} for o in single if ops.make(o, 1)], 0,
                          f"every operation, then on arguments that differ by one of {len(ops.PERTURB)} small changes (one sample, a swap, reversal, sign, a shift)"))
    out[-1].n_states = out[-1].transitions = len(out[-1].states) * len(ops.PERTURB)
    # one process that makes every ordered pair of configurations consecutive calls (an Eulerian path), arguments dropped after each call
    out.append(core.Space("long histories", [{"hist": [[n, v] for v in ops.variants(n) + ops.near(n)], "mode": "euler"} for n in ops.NAMES if ops.has(n)], 0,
                          "per function one process whose calls visit every ordered pair of configurations (incl. nearly equal ones) consecutively, alternating contents"))
    out[-1].n_states = out[-1].transitions = sum((len(ops.variants(n)) + len(ops.near(n))) ** 2 for n in ops.NAMES if ops.has(n))
    # 2. all ordered pairs of configurations of the same function
    pairs = []
    for n in ops.NAMES:
        if not ops.has(n):
            continue
        vs = ops.variants(n)
        pairs += [([n, a], [n, b]) for a in vs for b in vs if a != b and (not q or a == {} or b == {} or len(vs) <= 6)]
    out.append(pairs_space("pairs of configurations", pairs, ["overwrite"] if q else ["overwrite", "shared"], len(pairs)))
    # 3. all ordered pairs of functions
    one = all_ops(ops.NAMES, every=False)
    pairs = [(a, b) for a in one for b in one]
    out.append(pairs_space("pairs of functions", pairs, ["shared", "overwrite"], len(pairs)))
    # 4. rejected calls before every function
    out.append(core.Space("after rejected calls", [{"hist": [o], "mode": "reject", "i": i} for o in one for i in range(ops.N_REJECT)], len(one) * ops.N_REJECT,
                          f"every function after each of {ops.N_REJECT} rejected calls"))
    if not q:
        red = [o for o in all_ops(REDUCED, every=False)]
        tr = [(a, b, c) for a in red for b in red for c in red]
        out.append(pairs_space("triples of functions", tr, ["overwrite"], len(tr)))
        trip = []
        for n in ops.NAMES:
            if ops.has(n):
                vs = ops.variants(n)[:9]
                trip += [([n, a], [n, b], [n, c]) for a in vs for b in vs for c in vs if a != b and b != c]
        out.append(pairs_space("triples of configurations", trip, ["overwrite"], len(trip)))
    single = single + [[n, v] for n in ops.NAMES if ops.has(n) for v in ops.near(n)]
    for i in range(0, len(single), core.NPROC):
        fs = [(key(o, s), start(lambda o=o, s=s: ops.invoke(o, ops.make(o, s)))) for o in single[i:i + core.NPROC] for s in (1, 2)]
        for k, h in fs:
            BASE[k] = finish(h)
    return out


def scribble(arrs):
    for a in arrs:
        if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
            try:
                a[...] = 7
            except (ValueError, TypeError):
                pass


def global_state():
    st = np.random.get_state()
    return json.dumps([np.geterr(), st[0], int(st[1].sum()), int(st[2]), hash(random.getstate()), os.getcwd()], sort_keys=True)


def snapshot(args):
    return {k: (v.copy() if isinstance(v, np.ndarray) else ops.wkey(v)) for k, v in args.items()}


def same_args(args, snap):
    for k, v in args.items():
        if isinstance(v, np.ndarray):
            if v.shape != snap[k].shape or v.dtype != snap[k].dtype or v.tobytes() != snap[k].tobytes():
                return f"argument {k} was modified"
        elif ops.wkey(v) != snap[k]:
            return "the window object was modified"
    return None


def compare(op, seed, got, probs, when):
    want = BASE[key(op, seed)]
    if isinstance(want, tuple):
        probs.append(f"{op}: alone in a fresh process: {want[1]}")
        return
    for j, (g, w) in enumerate(zip(got, want)):
        d = util.diff(g, w, rtol=1e-10, atol=1e-13, what=f"{op[0]} {op[1]} output {j} {when}")
        if d:
            probs.append(d)
    if len(got) != len(want):
        probs.append("different number of results")


def sharing(op, args, res, probs, what="its arguments"):
    if op[0] in IDENTITY_OK:
        return
    for v in args.values():
        if isinstance(v, np.ndarray):
            for r in res:
                if r.size and v.size and np.shares_memory(r, v):
                    probs.append(f"{op[0]} {op[1]}: result shares memory with {what}")


def pure(op, fl, probs):
    a = ops.flavour(ops.make(op, 1), fl)
    s = snapshot(a)
    rs = []
    for i in range(2):
        try:
            rs.append(ops.invoke(op, a))
            sharing(op, a, rs[-1], probs)
        except Exception as e:                     # whether such contents are in the domain is another property's matter
            rs.append([type(e).__name__])
        d = same_args(a, s)
        if d:
            probs.append(f"{op[0]} {op[1]} on {fl} contents: {d}")
    for x, y in zip(*rs):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str)) or x != y:
                probs.append(f"{op[0]} {op[1]}: two equal calls end differently ({fl} contents)")
        else:
            d = "shape" if x.shape != y.shape else None if np.array_equal(x, y, equal_nan=True) else util.diff(x, y, rtol=1e-10, atol=1e-13)
            if d:
                probs.append(f"{op[0]} {op[1]}: two equal calls differ ({fl} contents): {d}")


def euler(n):
    """a walk over 0..n-1 in which every ordered pair (also i,i) occurs consecutively"""
    out, stack, nxt = [], [0], [0] * n
    while stack:
        v = stack[-1]
        if nxt[v] < n:
            nxt[v] += 1
            stack.append(nxt[v] - 1)
        else:
            out.append(stack.pop())
    return out[::-1]


def history(case):
    hist, mode = case["hist"], case["mode"]
    probs = []
    if mode == "repeat":
        op = hist[0]
        a = ops.make(op, 1)
        s = snapshot(a)
        rs = []
        for i in range(3):
            np.seterr(all=("ignore", "warn", "call")[i])        # every setting must survive, whatever the call sets it to
            np.seterrcall(lambda *x: None)
            np.random.seed(77 + i)
            random.seed(77 + i)
            g0 = global_state()
            rs.append(ops.invoke(op, a))
            probs += util.collect(same_args(a, s))
            sharing(op, a, rs[-1], probs)
            if global_state() != g0:
                probs.append(f"{op[0]} {op[1]} changed global state (numpy's error handling, a random generator)")
        np.seterr(all="ignore")
        for i, r in enumerate(rs):
            compare(op, 1, r, probs, f"call {i + 1} of 3 (same arguments)")
        if op[0] not in IDENTITY_OK and any(np.shares_memory(x, y) for x in rs[0] for y in rs[1] if x.size and y.size):
            probs.append("results of two calls share memory")
    elif mode == "pure":
        for fl in case["flavours"]:
            pure(hist[0], fl, probs)
    elif mode == "perturb":
        op = hist[0]
        for kind in case["kinds"]:
            b = ops.perturb(ops.make(op, 1), kind)
            want = forked(lambda: ops.invoke(op, b))
            a = ops.make(op, 1)
            compare(op, 1, ops.invoke(op, a), probs, f"before the {kind} change")
            if isinstance(want, tuple):            # such contents belong to other properties
                continue
            got = ops.invoke(op, b)
            for j, (g, w) in enumerate(zip(got, want)):
                probs += util.collect(util.diff(g, w, rtol=1e-10, atol=1e-13, what=f"{op[0]} {op[1]} output {j} after a call whose arguments differ by: {kind}"))
    elif mode == "euler":
        step = 0
        for i in euler(len(hist)):
            op, seed = hist[i], 1 + step % 2
            step += 1
            a = ops.make(op, seed)
            compare(op, seed, ops.invoke(op, a), probs, f"as call {step} of a long history")
            del a
            if probs:
                break
    elif mode == "reuse":
        op = hist[0]
        a, b = ops.make(op, 1), ops.make(op, 2)
        r1 = ops.invoke(op, a)
        keep = [x.copy() for x in r1]
        for k in a:
            if isinstance(a[k], np.ndarray):
                a[k][...] = b[k]
        if op[0] not in IDENTITY_OK:
            for x, y in zip(r1, keep):
                if not np.array_equal(x, y, equal_nan=True):
                    probs.append(f"{op[0]}: writing to the input changed an earlier result")
        compare(op, 2, ops.invoke(op, a), probs, "on a reused buffer")
    elif mode == "window":
        op = hist[0]
        a = ops.make(op, 1)
        w = a.get("window")
        if w is None:
            raise ModelSkip()
        new = [op[0], dict(op[1], win=[w.win_len, w.win_len, "hanning"])]
        alen = ops.make(op, 1)
        ref_args = dict(alen, window=api.fn("SlidingWindow")(w.win_len, w.win_len, "hanning"))
        want = forked(lambda: ops.invoke(new, ref_args))       # the new window object in a process that made no other call
        ops.invoke(op, a)
        try:
            w.win_hop, w.win_type = w.win_len, "hanning"
        except Exception:
            raise ModelSkip()
        got = ops.invoke(new, a)
        if isinstance(want, tuple):
            return [f"{op[0]} with a hanning window: {want[1]}"]
        for j, (g, x) in enumerate(zip(got, want)):
            probs += util.collect(util.diff(g, x, rtol=1e-10, atol=1e-13, what=f"{op[0]} after the caller changed its window object, output {j}"))
    elif mode == "reject":
        ops.rejected(case["i"])
        op = hist[0]
        compare(op, 1, ops.invoke(op, ops.make(op, 1)), probs, "after a rejected call")
    elif mode == "shared":
        # later calls must not disturb arguments or results of earlier ones
        a0 = None
        kept = []
        for i, op in enumerate(hist):
            a = ops.make(op, 1)
            s = snapshot(a)
            r = ops.invoke(op, a)
            probs += util.collect(same_args(a, s))
            for o2, a2, s2, r2 in kept:
                probs += util.collect(same_args(a2, s2))
                if op[0] not in IDENTITY_OK and any(x.size and y.size and np.shares_memory(x, y) for x in r for y in r2):
                    probs.append(f"results of {o2[0]} and {op[0]} share memory")
            kept.append((op, a, s, r))
        for op, a, s, r in kept:
            compare(op, 1, r, probs, "at the end of the history")
    else:      # overwrite
        for i, op in enumerate(hist):
            a = ops.make(op, 1)
            s = snapshot(a)
            r = ops.invoke(op, a)
            probs += util.collect(same_args(a, s))
            sharing(op, a, r, probs)
            compare(op, 1, r, probs, f"after {[h[0] for h in hist[:i]]} (their inputs and results overwritten)")
            scribble(r)
            scribble(a.values())
    return probs[:4]


def run(case):
    for op in case["hist"]:
        baseline(op, 1)
        if case["mode"] in ("reuse", "euler"):
            baseline(op, 2)

    def go():
        try:
            return history(case)
        except ModelSkip:
            return "skip"
    r = forked(go)
    if r == "skip":
        raise ModelSkip()
    if isinstance(r, tuple):
        return Result([f"history raised {r[1]}"], "raise")
    n = len(case["hist"])
    n = {"euler": n * n, "perturb": len(case.get("kinds", "")), "pure": len(case.get("flavours", ""))}.get(case["mode"], n)
    return Result(r, json.dumps(case["hist"][-1], sort_keys=True), validated=n, execs=n)
