"""Generates /verif/MANIFEST.json from the check modules and tools/mkprops.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import mkprops
from manifest_notes import TECH, NOTE, NA
checks, na = [], []
for p in mkprops.P:
    pid = p["id"]
    f = os.path.join(V, "checks", pid.lower() + ".py")
    if os.path.exists(f) and pid not in NA:
        lvl = re.search(r'^LEVEL = "(\w+)"', open(f).read(), re.M).group(1)
        checks.append({"property": pid, "quick_cmd": "./check %s" % pid, "thorough_cmd": "./check %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": TECH[pid], "level": lvl, "level_note": NOTE[pid]})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check runs /repo's current tree; native code is used in place when its build stamp matches the current sources and is rebuilt into a scratch directory otherwise. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
