#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per harness in src/, the rest of the properties are listed as not claimed."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
have = {os.path.basename(p).split("_")[0].upper() for p in glob.glob(os.path.join(ROOT, "src", "c[0-9]*_*.cpp"))}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": n.get("technique", "property-based testing with shrinking" + ("" if i in ("C27", "C29", "C31", "C32") else " (thorough: plus a coverage-guided search)")), "level": "exploration",
                       "level_note": n.get("note", "Random generated cases against an explicit oracle; assurance is statistical, bounded by the generators described in DESIGN.md.")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --build-all", "checks": checks, "not_applicable": na,
     "notes": "All harnesses are built from /repo's current sources with AddressSanitizer, the generators are driven by VERIF_SEED, and every failure is shrunk to replays/<ID>-<group>.json (replay: python3 tools/check.py ID --replay FILE)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
