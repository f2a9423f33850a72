#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import attribution
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = getattr(attribution, "TECH", {})
checks = []
for p in props:
    i = p["id"]
    if i not in attribution.RUNS:
        continue
    checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": TECH.get(i, ("TLA+ contract model-checked with TLC; its outcome tables replayed into the real code and recorded traces validated against it",))[0],
                   "level": "model_checking",
                   "level_note": TECH.get(i, ("", "Exhaustive over the small-scope model and every injected failure point in it; longer histories sampled and validated by trace specifications. Trusts TLC, the harness projection and g++."))[1]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in attribution.RUNS],
     "notes": "Specifications in spec/ (TLA+, TLC). No hooks in /repo: the harnesses observe the library through user-supplied allocators, element types, comparators and error objects."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
