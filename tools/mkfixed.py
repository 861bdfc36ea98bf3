#!/usr/bin/env python3
"""Regenerates the "fixed" list of known_findings.json from the fix: commits of /repo and the table below (subject prefix -> properties)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
for l in open(os.path.join(V, "tools", "fixes.txt")):
    if "|" in l:
        a, b = l.rstrip("\n").split("|", 1)
        T[b.strip()] = a.split()
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out, miss = [], []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        s = s[4:].strip()
        if s not in T:
            miss.append(s)
        for q in T.get(s, []):
            out.append("fixed: property=%s %s %s" % (q, h, s))
p = V + "/known_findings.json"
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
print(len(out), "fixed lines; without a property:", miss)
