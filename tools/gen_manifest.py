#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = ("Generated-input search (Hypothesis, seeded, shrinking) on the real code running under the project's interpreter, judged by an "
        "explicit oracle; finds counterexamples within the generated sizes, never proves absence. Trusts numpy/scipy/pandapower and the oracle.")
EXTRA = {
    "C17": " Power flow tolerance of pandapower bounds what is seen.", "C18": " Power flow tolerance of pandapower bounds what is seen.",
    "C21": " Statistical moments, tested at 6.5 sigma on 1500 samples per case.",
    "C28": " The GPU library is replaced by a stand-in (no GPU here) that keeps device and host arrays apart.",
    "C32": " Figures are recorded when they are saved, not rendered.",
    "C31": " Figures are recorded when they are saved; a part of the cases is rendered for real.",
}
checks = []
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for i in ids:
    if not os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        continue
    checks.append({"property": i, "quick_cmd": "./run_check %s" % i, "thorough_cmd": "./run_check %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "property-based testing (Hypothesis generators, explicit oracle, shrinking to a replay file)",
                   "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
done = set(c["property"] for c in checks)
m = {"version": 1, "setup_cmd": "python3-vt -c \"import hypothesis\" && /opt/venv/bin/python -c \"import numpy, scipy, pandapower\"", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in done],
     "notes": "No hooks in /repo. Replays: ./run_check <ID> --replay replay/<file>.json"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", m["not_applicable"])
