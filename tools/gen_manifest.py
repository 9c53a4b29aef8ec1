#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of registered checks and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("TLC exhaustively checks the bounded TLA+ specification of the component; scripts covering its state graph "
        "and random scripts run against the real code (release and debug flavours, AddressSanitizer), and TLC "
        "validates every recorded trace against the same specification. Trusts TLC, the trace-recording driver, "
        "gcc/ASan and GLib; exhaustive only within the model bounds, sampled beyond.")
checks = []
for p in props:
    if p["id"] in registry.CHECKS:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                           thorough_cmd="python3 check.py %s thorough" % p["id"],
                           technique="TLA+ specification model-checked with TLC, trace validation of the real code both ways",
                           level="model_checking", level_note=registry.NOTES.get(p["id"], NOTE)))
na = [dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in registry.CHECKS]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is observed through the public API, interposed system calls and the "
               "sanitizer's heap statistics. /repo carries fix: commits for genuine defects only (see known_findings.txt).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
