"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C01": "runtime purity monitor: mixed call histories and threads vs freshly forked processes, in-flight argument watch",
    "C02": "runtime monitor: every documented lookup vs the record that must be read",
    "C03": "runtime monitor: interpolation reference model, continuity and range monitors",
    "C04": "runtime history monitor: random operation sequences vs sequential model of the scenario cache",
    "C05": "runtime monitor: exact-arithmetic geometry reference, bounds and monotonicity monitors",
    "C26": "runtime monitor: end-to-end reference model of simulation over change histories",
    "C27": "runtime statistical monitor: moments, correlation and chi-square of observed noise",
    "C31": "runtime differential monitor: processes with and without OpenCV",
    "C33": "runtime metamorphic monitor: ordered pairs of systems",
    "C34": "runtime monitor of raised errors and emitted warnings at the public boundary",
    "C35": "runtime differential monitor: predictions of copied and pickled objects vs the originals, here and in another process",
    "C37": "runtime metamorphic monitor: values at points alone, reordered and among others",
    "C38": "runtime metamorphic monitor: scaling laws between observed calls",
    "C36": "runtime monitor: audit hook, descriptors, threads, output and process state around imports and calls",
}
note = ("Observes real executions of the code in /repo's working tree on generated workloads; a violation is a concrete failing call. "
        "Inputs outside the generated ranges and effects below the stated numerical tolerances are not observed.")
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "/opt/venv/bin/python check.py --property %s --tier quick" % i,
        "thorough_cmd": "/opt/venv/bin/python check.py --property %s --tier thorough" % i,
        "technique": TECH.get(i, "runtime monitor: reference-model and metamorphic oracles over observed calls"),
        "level": "exploration",
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, cv2, matplotlib'", "checks": checks, "not_applicable": []}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
