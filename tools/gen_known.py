#!/usr/bin/env python3
"""Rewrites the "fixed" lines of known_findings.jsonl from /repo's fix commits.

The property of each fix is in the table; lines with status "open" are kept.
Run by hand after a fix commit (never by a check)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(ROOT, "tools", "fixes.json")))
out = []
path = os.path.join(ROOT, "known_findings.jsonl")
opens = [l for l in open(path).read().splitlines() if l.strip() and json.loads(l)["status"] == "open"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split("\t", 1)
    if not s.startswith("fix:"):
        continue
    p = MAP.get(s)
    if p is None:
        raise SystemExit("no property for: " + s)
    out.append(json.dumps({"property": p, "status": "fixed", "entry": f"fixed: property={p} {h} {s[5:]}"}))
open(path, "w").write("\n".join(out + opens) + "\n")
print(len(out), len(opens))
