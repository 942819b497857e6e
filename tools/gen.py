#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
import props
out = os.path.dirname(here)
with open(f"{out}/properties.jsonl", "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
na = getattr(props, "NA", [])
m = {"version": 1, "setup_cmd": "bin/check --build",
     "checks": [{"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in props.P if p["id"] not in {x[0] for x in na}],
     "not_applicable": [{"property": a, "reason": b} for a, b in na],
     "notes": "No hooks in /repo: every monitor works at public interfaces or on built binaries. Defects found were repaired by 'fix:' commits; see known_findings.jsonl and DESIGN.md."}
json.dump(m, open(f"{out}/MANIFEST.json", "w"), indent=1)
print(len(props.P), "properties")

# DESIGN.md
d = open(f"{here}/design.md").read()
t = ["| id | property | deciding monitor | bounds |", "|---|---|---|---|"]
for p in props.P:
    t.append("| %s | %s | %s | %s |" % tuple(str(x).replace("|", "/") for x in (p["id"], p["title"], p["technique"].replace("runtime monitor: ", ""), p["note"])))
kf = [json.loads(l) for l in open(f"{out}/known_findings.jsonl")]
fx = {}
for k in kf: fx.setdefault(k["property"], []).append(k)
f = []
for p in props.P:
    for k in fx.get(p["id"], []):
        f.append("* %s `%s` %s" % (p["id"], k["commit"], k["text"].split(k["commit"], 1)[1].strip()))
# bugs a check missed at first
LATE = {"ac7-ascii-case", "metadata-eq-download", "pak-many-blocks"}
s = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for k in sorted(os.listdir(f"{out}/seeded")):
    m = json.load(open(f"{out}/seeded/{k}/meta.json"))
    s.append("| %s | %s | %s | quick check of %s%s |" % (k, m["property"], m["needs"].replace("|", "/"), m["property"], " (strengthened for it)" if k in LATE else ""))
open(f"{out}/DESIGN.md", "w").write(d.replace("<!-- TABLE -->", "\n".join(t)).replace("<!-- FIXED -->", "\n".join(f)).replace("<!-- SEEDED -->", "\n".join(s)))
