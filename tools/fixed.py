#!/usr/bin/env python3
"""Regenerates the 'fixed' lines of known_findings.jsonl from /repo's fix: commits; known entries are kept."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject fragment -> properties that show the defect
MAP = json.load(open(f"{V}/tools/fixed_map.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
path = f"{V}/known_findings.jsonl"
known = [l for l in open(path).read().splitlines() if '"status": "known"' in l] if os.path.exists(path) else []
out = list(known)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    s = s[5:]
    for p in MAP.get(s) or ["?"]:
        if p == "?": print("unmapped:", s)
        out.append(json.dumps({"status": "fixed", "property": p, "commit": h, "text": f"fixed: property={p} {h} {s}"}))
open(path, "w").write("\n".join(out) + "\n")
