#!/usr/bin/env python3
"""Adds 'fixed: property=<id> <commit> <what failed>' entries for every fix: commit in /repo (development helper, never run by a check)."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(R, "tools", "fixed_map.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
p = os.path.join(R, "known_findings.json"); k = json.load(open(p)); k["fixed"] = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    m = MAP.get(s)
    if not m: print("no map entry for", s); continue
    for pid in m[0].split(","):
        k["fixed"].append("fixed: property=%s %s %s" % (pid, h, m[1]))
json.dump(k, open(p, "w"), indent=1); open(p, "a").write("\n")
