#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plan."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from plan import PLAN, MODELS, GEN
checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    ms = sorted({m[0] for m in MODELS.get(i, [])} | {GEN[x[0]][0] for x in PLAN[i] if x[0][0] == "@"})
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "TLA+ state-machine specification, TLC: trace validation of recorded executions of the real code"
                     + (" and model checking (%s) with behaviours replayed into the code" % ", ".join(ms) if ms else ""),
        "level": "model_checking",
        "level_note": "Every recorded call (inputs and histories from " + ", ".join(x[0] for x in PLAN[i]) +
                      "; @ marks programs that TLC generates along a model of the specification) is checked by TLC against the contract of this property in the state the specification reached. "
                      "Exhaustive only for the small enumerated families; otherwise boundary-structured sampling. "
                      "Trusts TLC, the BigNat Java override (checked against its TLA+ definitions) and the driver's recording.",
    })
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the driver uses only the public API and the Debug form. Spec language: TLA+, checked with TLC."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
