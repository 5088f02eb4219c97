#!/usr/bin/env python3
"""tools/mk_caught.py RESULT.txt...: outputs of try_seeds.py -> tools/caught.json (later files win)"""
import json, os, re, sys
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), "caught.json")
c = json.load(open(P)) if os.path.exists(P) else {}
for f in sys.argv[1:]:
    for ln in open(f):
        m = re.match(r"(\S+)\s+(C\d\d) rc=(\d+)\s+(\d+)s (.*)", ln)
        if not m:
            continue
        i, p, rc, t, rest = m.groups()
        if rc == "1" and "VIOLATION prop" in rest:
            o = re.search(r"FAILED-OBLIGATION (\S+)\[\d+\] (\S+)", rest)
            c[i] = "%s, %s s, %s%s" % (p, t, "`%s: %s`, " % o.groups() if o else "", "no failing input" if "no-failing-input" in rest.split("|")[0] else "failing input found")
            if not o:
                c[i] = "%s, %s s, bounded stand-in (unit undecided), failing input found" % (p, t)
        else:
            c[i] = "missed by %s" % p
json.dump(c, open(P, "w"), indent=0, sort_keys=True)
