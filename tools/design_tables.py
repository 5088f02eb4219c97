#!/usr/bin/env python3
"""Print the seed table and the findings table of DESIGN.md from seeded/*/meta.json, known-findings.jsonl and tools/caught.json."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(H, "tools", "caught.json")))
print("| planted change | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(H, "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    print("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], caught.get(i, "?")))
