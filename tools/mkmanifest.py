"""Writes MANIFEST.json from harness/plans.py and properties.jsonl."""
import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V))
from harness.plans import PLANS  # noqa: E402

NOTE = ("TLC explores the TLA+ specification exhaustively within its bounds and judges, with the same operators, "
        "every observation recorded from the real code of /repo/pyown (public API, virtual time, in-process gateway). "
        "Assumes the specification states the documents correctly; the code is covered on the recorded runs only.")
checks, na = [], []
for line in open(V / "properties.jsonl"):
    p = json.loads(line)["id"]
    if p in PLANS:
        plan = PLANS[p]
        checks.append({
            "property": p, "quick_cmd": f"./check.py {p}", "thorough_cmd": f"./check.py {p} thorough",
            "technique": "TLA+/TLC model checking of " + ", ".join(sorted({m.module for m in plan.mc}))
                         + (" + replay of TLC-generated behaviours" if plan.gen else "")
                         + f" + trace validation by {plan.trace}",
            "level": "model_checking", "level_note": (plan.note + " " if plan.note else "") + NOTE})
    else:
        na.append({"property": p, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the drivers use the public API only. Known and fixed findings: known_findings.txt."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
