"""Writes /verif/MANIFEST.json from the properties and the checks' own descriptions."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C16": "explicit-state exploration of all call histories up to a depth on the real code",
    "C17": "stateless model checking of two threads under a controlled scheduler, preemption bounded, on the real code",
}
NOTE = {
    "C16": "Exhaustive over the stated operations and history depth; every history runs in a fresh process image. Operations outside the alphabet and longer histories are not covered.",
    "C17": "Exhaustive over all switch points in library code within the preemption bound for the stated operation pairs; switches inside C code (numpy, scipy) and more than two threads are not covered.",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    doc = " ".join(ast.get_docstring(ast.parse(open(os.path.join(V, "mc", "checks", i.lower() + ".py")).read())).split("\n\n")[0].split())
    checks.append({
        "property": i,
        "quick_cmd": f"/opt/venv/bin/python run.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python run.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, "exhaustive bounded state-space exploration; every model trace replayed on the implementation"),
        "level": "model_checking",
        "level_note": doc + " " + NOTE.get(i, "Exhaustive within the bounds recorded in the evidence file; values outside the stated alphabets and deviations beyond the bound are not covered. numpy/scipy primitives (FFT, DCT, lfilter, solve) are trusted."),
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: every check imports the package from /repo's working tree. No network, no build step beyond Python imports."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
