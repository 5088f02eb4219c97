#!/usr/bin/env python3
"""Rewrite the seed table of DESIGN.md (between its two markers)."""
import os, re, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
t = subprocess.run([sys.executable, os.path.join(H, "tools", "design_tables.py")], stdout=subprocess.PIPE, text=True, check=True).stdout
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, "w").write(s)
