"""Explorer core: explicit-state search, crash-isolated parallel execution, evidence and replay files.

A check module (mc/checks/cNN.py) provides

    PID                      property id
    def spaces(tier)         -> list of Space
    def run(case)            -> Result           executes ONE state on the real code and on the reference model

A *case* (state) is a plain JSON-able dict, so that every violation can be replayed from its file.
"""
import hashlib
import itertools
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

NPROC = max(1, min(8, os.cpu_count() or 1))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ----------------------------------------------------------------------------------------------- results
class Result:
    """What one execution showed."""

    __slots__ = ("problems", "outcome", "validated", "execs")

    def __init__(self, problems=(), outcome=None, validated=1, execs=1):
        self.problems = list(problems)   # violated obligations, as text
        self.outcome = outcome           # short digest of what was observed (to count distinct outcomes)
        self.validated = validated       # model traces (steps) compared with the implementation
        self.execs = execs               # executions of the implementation


class ModelSkip(Exception):
    """Raised by the reference model: this state lies outside the property's domain (never by the implementation)."""


# ----------------------------------------------------------------------------------------------- spaces
class Space:
    """A finite state space, already explored breadth first: states in BFS order + number of edges followed."""

    def __init__(self, name, states, transitions, bound, exhaustive=True):
        self.name, self.states, self.transitions, self.bound = name, states, transitions, bound
        self.exhaustive = exhaustive


def freeze(v):
    if isinstance(v, dict):
        return tuple(sorted((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    return v


def lattice(name, params, depth, base=None, valid=None, extra=None):
    """Deviation-bounded BFS.  params: {name: [default, alt, alt ...]}; a state is an assignment of every parameter,
    a transition sets one parameter that still has its default to one of its alternatives.  All states reachable
    with at most `depth` transitions are visited.  `valid(state)` cuts states outside the property's domain (their
    successors are still generated, so validity need not be monotone)."""
    names = list(params)
    start = tuple(0 for _ in names)
    seen = {start: 0}
    order = [start]
    frontier = [start]
    transitions = 0
    for _ in range(depth):
        nxt = []
        for s in frontier:
            for i, n in enumerate(names):
                if s[i]:
                    continue
                for a in range(1, len(params[n])):
                    transitions += 1
                    t = s[:i] + (a,) + s[i + 1:]
                    if t not in seen:
                        seen[t] = 1
                        order.append(t)
                        nxt.append(t)
        frontier = nxt
    states = []
    for s in order:
        c = dict(base or {})
        for i, n in enumerate(names):
            c[n] = params[n][s[i]]
        if valid is None or valid(c):
            states.append(c)
    return Space(name, states, transitions, f"<= {depth} deviations from the default over {len(names)} parameters "
                 f"({sum(len(v) - 1 for v in params.values())} alternatives)")


def product(name, params, base=None, valid=None):
    """Full cartesian product (every edge between assignments that differ in one parameter is counted once, from the
    BFS parent)."""
    names = list(params)
    states = []
    n_all = 0
    for combo in itertools.product(*[params[n] for n in names]):
        n_all += 1
        c = dict(base or {})
        c.update(zip(names, combo))
        if valid is None or valid(c):
            states.append(c)
    return Space(name, states, max(0, n_all - 1), "full product " + "x".join(str(len(params[n])) for n in names))


def sweeps(name, dense, bases, valid=None):
    """One parameter at a time over a dense range, from each of several base configurations."""
    states, n = [], 0
    for b in bases:
        for k, vals in dense.items():
            for v in vals:
                n += 1
                c = dict(b)
                c[k] = v
                if valid is None or valid(c):
                    states.append(c)
    return Space(name, states, n, f"{len(bases)} configurations x every value of the dense range of each of {len(dense)} parameters: "
                 + ", ".join(f"{k} {len(v)}" for k, v in dense.items()))


def words(alphabet, maxlen, minlen=0):
    """All sequences over an alphabet (a tree: one transition per appended letter), shortest first."""
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(alphabet, repeat=n)


def tree(name, alphabet, maxlen, key, base=None, minlen=1, chunk=1):
    """All words of length minlen..maxlen over the alphabet.  `chunk` words are grouped in one case for speed; the
    number of states reported stays the number of words (nodes of the tree)."""
    ws = [list(w) for w in words(alphabet, maxlen, minlen)]
    n_nodes = sum(len(alphabet) ** n for n in range(0, maxlen + 1))
    cases = []
    for i in range(0, len(ws), chunk):
        c = dict(base or {})
        c[key] = ws[i:i + chunk] if chunk > 1 else ws[i]
        cases.append(c)
    sp = Space(name, cases, n_nodes - 1, f"all words of length {minlen}..{maxlen} over {len(alphabet)} letters")
    sp.n_states = len(ws)
    return sp


# ----------------------------------------------------------------------------------------------- execution
class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


CASE_LIMIT = 150.0


def execute(module, case, limit=None):
    """Run one case, turning implementation exceptions into problems.  Never raises."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit or getattr(module, "CASE_LIMIT", CASE_LIMIT))
    try:
        r = module.run(case)
    except ModelSkip:
        r = Result(outcome="skip", validated=0, execs=0)
    except CaseTimeout:
        r = Result([f"no result within {limit or getattr(module, 'CASE_LIMIT', CASE_LIMIT):.0f} s (non-termination)"], "timeout")
    except MemoryError:
        r = Result(["MemoryError"], "memory")
    except Exception as e:  # raised by the implementation inside its defined domain
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.relpath(f.filename, '/repo')}:{f.name}" for f in reversed(tb)
                      if f.filename.startswith("/repo/")), "harness")
        last = tb[-1]
        r = Result([f"raised {type(e).__name__}: {str(e)[:160]} (in {where}; {os.path.basename(last.filename)}:"
                    f"{last.lineno})"], "raise:" + type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r


def _worker(module, cases, blocks, rfd, outpath, progress, stoppath, deadline):
    out = []
    stopped = False
    try:
        with open(outpath, "wb") as f:
            while True:
                b = os.read(rfd, 4)
                if len(b) < 4:
                    break
                lo, hi = blocks[int.from_bytes(b, "little")]
                if os.path.exists(stoppath) or time.time() > deadline:
                    stopped = True
                    continue
                for i in range(lo, hi):
                    os.pwrite(progress, i.to_bytes(4, "little"), 0)
                    r = execute(module, cases[i])
                    oc = r.outcome if r.outcome is None or isinstance(r.outcome, str) else \
                        hashlib.md5(repr(r.outcome).encode()).hexdigest()[:12]
                    pickle.dump((i, r.problems, oc, r.validated, r.execs), f)
                    f.flush()
                    if r.problems:
                        out.append(i)
                        if len(out) >= 4:
                            open(stoppath, "w").close()
            pickle.dump(("end", stopped), f)
    except BaseException:
        try:
            sys.stderr.write(traceback.format_exc())
        except Exception:
            pass
        os._exit(70)
    os._exit(0)


def run_cases(module, cases, deadline):
    """Execute all cases in forked workers.  Returns (results by index, complete?, crashed [(index, how)])."""
    n = len(cases)
    if not n:
        return {}, True, []
    size = max(1, min(64, n // (NPROC * 24) or 1))
    blocks = [(i, min(n, i + size)) for i in range(0, n, size)]
    while len(blocks) > 15000:
        size *= 2
        blocks = [(i, min(n, i + size)) for i in range(0, n, size)]
    with tempfile.TemporaryDirectory(prefix="mc_") as d:
        rfd, wfd = os.pipe()
        for i in range(len(blocks)):
            os.write(wfd, i.to_bytes(4, "little"))
        stop = os.path.join(d, "stop")
        procs = []
        for w in range(min(NPROC, len(blocks))):
            prog = os.open(os.path.join(d, f"p{w}"), os.O_RDWR | os.O_CREAT)
            path = os.path.join(d, f"o{w}")
            pid = os.fork()
            if pid == 0:
                os.close(wfd)
                _worker(module, cases, blocks, rfd, path, prog, stop, deadline)
            procs.append((pid, prog, path))
        os.close(wfd)
        os.close(rfd)
        results, crashed, complete = {}, [], True
        for pid, prog, path in procs:
            while True:
                try:
                    _, status = os.waitpid(pid, 0)
                    break
                except InterruptedError:
                    continue
            ended = False
            try:
                with open(path, "rb") as f:
                    while True:
                        try:
                            rec = pickle.load(f)
                        except Exception:
                            break
                        if rec[0] == "end":
                            ended = True
                            complete &= not rec[1]
                        else:
                            results[rec[0]] = rec[1:]
            except FileNotFoundError:
                pass
            if not ended:
                complete = False
                b = os.pread(prog, 4, 0)
                idx = int.from_bytes(b, "little") if len(b) == 4 else -1
                how = f"killed by signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) \
                    else f"worker exit {os.WEXITSTATUS(status)}"
                crashed.append((idx, how))
            os.close(prog)
        return results, complete, crashed


# ----------------------------------------------------------------------------------------------- driver
def known_findings(pid):
    """Open findings (lines 'finding: property=<id> case=<json> <what fails>'); fixed entries suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=" + pid + " "):
                rest = line.split(" case=", 1)[1]
                case, idx = json.JSONDecoder().raw_decode(rest)
                out.append((freeze(case), rest[idx:].strip()))
    return out


def short(case, n=600):
    s = json.dumps(case, default=str)
    return s if len(s) <= n else s[:n] + "..."


def main(module, tier, seed, budget):
    pid = module.PID
    t0 = time.time()
    deadline = t0 + budget
    states = transitions = validated = execs = skipped = 0
    exhaustive = True
    outcomes = set()
    samples, bounds, caps = [], [], []
    violations = []
    known = known_findings(pid)
    hit_known = set()
    for sp in module.spaces(tier):
        ts = time.time()
        cases = sp.states
        results, complete, crashed = run_cases(module, cases, deadline)
        nst = getattr(sp, "n_states", None) or len(cases)
        sp.transitions = max(sp.transitions, nst - 1)
        done = len(results)
        if getattr(sp, "count_validated", False):      # one case explores many schedules
            nst = sum(r[2] for r in results.values())
            sp.transitions = max(sp.transitions, nst)
        weight = nst / max(1, len(cases) if not getattr(sp, "count_validated", False) else done)
        states += int(round(done * weight))
        transitions += int(sp.transitions if complete else sp.transitions * done / max(1, len(cases)))
        nsk = 0
        for i in sorted(results):
            problems, oc, v, e = results[i]
            validated += v
            execs += e
            if oc == "skip":
                nsk += 1
            elif oc is not None:
                outcomes.add((sp.name, oc))
            if problems:
                fz = freeze(cases[i])
                k = next((t for c, t in known if c == fz), None)
                if k is not None:
                    hit_known.add(k)
                else:
                    violations.append((sp.name, cases[i], problems))
        skipped += nsk
        for idx, how in crashed:
            if 0 <= idx < len(cases):
                violations.append((sp.name, cases[idx], [f"execution of the implementation ended the process: {how}"]))
        if not (complete and sp.exhaustive):
            exhaustive = False
            caps.append(f"{sp.name}: {done} of {len(cases)} cases")
        bounds.append({"space": sp.name, "bound": sp.bound, "states": nst, "cases_run": done, "outside_domain": nsk,
                       "transitions": sp.transitions, "complete": bool(complete),
                       "wall_s": round(time.time() - ts, 2)})
        if cases:
            for j in sorted({0, len(cases) // 2, len(cases) - 1}):
                if j in results:
                    samples.append({"space": sp.name, "case": json.loads(json.dumps(cases[j], default=str))
                                    if len(short(cases[j], 10**9)) < 1500 else short(cases[j]),
                                    "outcome": results[j][1], "model_steps_compared": results[j][2]})
        if violations:
            break
    for t in sorted(hit_known):
        print(f"KNOWN-FINDING: property={pid} {t}")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions, "traces_validated_against_impl": validated,
            "implementation_executions": execs, "distinct_outcomes": len(outcomes),
            "states_outside_domain": skipped, "exhaustive": bool(exhaustive and not violations),
            "bounds": bounds, "caps_hit": caps, "samples": samples[:24],
            "rule": getattr(module, "RULE", (module.__doc__ or "").strip().split("\n\n")[0]),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", [
            "values outside the stated alphabets are not covered",
            "numpy/scipy FFT, DCT, lfilter and linear algebra are trusted; the reference model uses them or explicit sums"]),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if violations:
        for n, (name, case, problems) in enumerate(violations[:5]):
            path = os.path.join(evd, f"{pid}_replay_{n}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "space": name, "case": case, "problems": problems}, f, indent=1)
            for p in problems[:6]:
                print(f"  [{name}] {p}")
            print(f"  case: {short(case)}")
            print(f"VIOLATION property={pid} replay={path}")
        print(f"{pid}: {len(violations)} violating states; explored {states} states in {time.time() - t0:.1f} s")
        return 1
    print(f"{pid}: held on {states} states, {transitions} transitions, {validated} model traces validated, "
          f"{len(outcomes)} distinct outcomes, exhaustive={exhaustive}, {time.time() - t0:.1f} s")
    return 0


def replay(module, path):
    rec = json.load(open(path))
    r = execute(module, rec["case"])
    for p in r.problems:
        print("  " + p)
    if r.problems:
        print(f"VIOLATION property={module.PID} replay={path}")
        return 1
    print("replay: property holds on this case")
    return 0
