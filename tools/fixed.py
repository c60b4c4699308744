#!/usr/bin/env python3
"""Rewrites the "fixed" list of known-findings.json: every fix: commit in /repo with its properties
(the map below is by commit subject, so that it survives a rebase)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = json.load(open(V + "/tools/fixed.json"))
path = V + "/known-findings.json"
kf = json.load(open(path)) if os.path.exists(path) else {"findings": []}
out = []
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix:"):
        s = s[4:].strip()
        e = BY.get(s)
        assert e, "no entry for: " + s
        for pid in e[0].split(","):
            out.append(f"fixed: property={pid} {h} {e[1]}")
kf["fixed"] = out
json.dump(kf, open(path, "w"), indent=1)
open(path, "a").write("\n")
print(len(out), "fixed lines")
