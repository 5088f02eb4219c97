#!/usr/bin/env python3
"""Regenerate MANIFEST.json from vc/registry.py (PROPS = claimed) and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "vc"))
import registry
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        n = registry.NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt check.py %s --tier quick" % i,
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification of the LLVM IR of the real headers (function contracts, loop and class invariants, z3)",
            "level": n.get("level", "proof"),
            "level_note": n.get("note", registry.DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no contract written for it yet")})
m = {"version": 1, "setup_cmd": "python3-vt -m py_compile check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the drivers in /verif/drv instantiate the real templates of the headers and are compiled on every run."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
