"""Plant bugs: python3 tools/plant.py SPEC.py [id ...]   (development tool; no check uses it)

SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=<python source>, needs, breaks)].  For each one: a scratch
copy of /repo is changed, the changed lines are checked to be original ones, the demo is run on both trees, the test
suite on the changed one, and the property's quick check on the changed one; kept under seeded/<id> if it counts."""
import json, os, re, runpy, shutil, subprocess as sp, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
BASE = sp.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True, capture_output=True).stdout.strip()

DEMO = """#!/bin/bash
# cwd: the repository under test
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export MPLCONFIGDIR=$d PYTHONPYCACHEPREFIX=$d/pyc
PYTHONPATH=$PWD exec_py() { /opt/venv/bin/python "$@"; }
PYTHONPATH=$PWD /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def plant(s, keep_checks=True):
    d = f"/tmp/plant_{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__"))
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"edit matches {t.count(old)} times in {f}: {old[:50]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sp.run(["git", "-C", d, "diff"], text=True, capture_output=True).stdout
        # changed lines must be original ones
        own, cur, ln = 0, None, 0
        for line in sp.run(["git", "-C", d, "diff", "-U0"], text=True, capture_output=True).stdout.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
            if m:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    bl = sp.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", f"{a},{a + n - 1}", "HEAD", "--", cur], text=True, capture_output=True).stdout
                    own += sum(not b.lstrip("^").startswith(BASE[:30]) for b in bl.splitlines())
        out = os.path.join("/tmp/plant_out", s["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"])
        open(os.path.join(out, "demo.sh"), "w").write("\n".join(l for l in DEMO.splitlines() if "exec_py" not in l) + "\n")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = sp.run(["bash", out + "/demo.sh"], cwd="/repo", text=True, capture_output=True)
        b = sp.run(["bash", out + "/demo.sh"], cwd=d, text=True, capture_output=True)
        if a.returncode != 0:
            return "demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-300:]
        if b.returncode == 0:
            return "demo passes on the changed tree"
        t = sp.run([PY, "-m", "pytest", "tests", "-q", "-x", "-n", "8", "-p", "no:cacheprovider"], cwd=d, text=True, capture_output=True, env=dict(ENV, PYTHONPATH=d))
        tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
        if t.returncode != 0:
            return "tests fail: " + "; ".join(l for l in t.stdout.splitlines() if l.startswith("FAILED"))[:300] + tests
        t0 = time.time()
        c = sp.run([PY, "run.py", s["prop"]], cwd=V, text=True, capture_output=True, env=dict(os.environ, SPAFE_REPO=d))
        caught = c.returncode == 1 and f"VIOLATION property={s['prop']} " in c.stdout
        dst = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return f"{'CAUGHT' if caught else 'MISSED rc=%d' % c.returncode} by {s['prop']} in {time.time() - t0:.1f} s; demo: {(b.stdout + b.stderr).strip().splitlines()[-1][:110] if (b.stdout + b.stderr).strip() else ''}; {'' if not own else 'WARNING touches %d lines of own commits; ' % own}" \
               + ("" if caught else "\n" + c.stdout[-300:] + c.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    for s in specs:
        if not want or s["id"] in want:
            print(s["id"], plant(s), flush=True)
