#!/usr/bin/env python3
"""addfinding.py PID 'what fails' : put the violations of the last run of PID (evidence/replay/PID-*.json) into known_findings.json."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, what = sys.argv[1], sys.argv[2]
pre = sys.argv[3] if len(sys.argv) > 3 else ""
keys = sorted({json.load(open(f))["failure"]["key"] if "failure" in json.load(open(f)) else json.load(open(f))["key"] for f in glob.glob(V + "/evidence/replay/%s-*.json" % pid)})
keys = [k for k in keys if k.startswith(pre)]
kf = json.load(open(V + "/known_findings.json"))
for e in kf["findings"]:
    if e["property"] == pid and e["what"] == what:
        e["keys"] = sorted(set(e["keys"]) | set(keys))
        break
else:
    kf["findings"].append({"property": pid, "what": what, "keys": keys})
json.dump(kf, open(V + "/known_findings.json", "w"), indent=1)
print(len(keys), "keys")
