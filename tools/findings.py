#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.md from tools/findings.map (commit property) and the commit subjects in /repo."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {}
for l in open(V + "/tools/findings.map"):
    p = l.split()
    if len(p) >= 2:
        m[p[0]] = p[1]
out = ["# Known findings", "",
       "Genuine defects found by the checks. `fixed:` entries suppress nothing; there are no unrepaired findings unless a line starts with `open:`.", ""]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
miss = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    if h not in m:
        miss.append(l)
        continue
    out.append("fixed: property=%s %s %s" % (m[h], h, s[4:].strip()))
try:
    out += [""] + open(V + "/tools/findings.open").read().splitlines()
except FileNotFoundError:
    pass
open(V + "/KNOWN_FINDINGS.md", "w").write("\n".join(out) + "\n")
for l in miss:
    print("unmapped", l)
