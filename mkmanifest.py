#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the properties the harness implements."""
import json, subprocess, os, sys
H = os.path.dirname(os.path.abspath(__file__))
have = set(subprocess.run([H + "/build/vfcheck", "--list"], capture_output=True, text=True).stdout.split())
NOTE = {}
exec(open(H + "/notes.py").read())
checks, na = [], []
for l in open(H + "/properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    if i in have:
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 run_check.py %s quick" % i, "thorough_cmd": "python3 run_check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check builds the unmodified sources with its own runtime (allocator and OpenMP stand-ins) linked underneath."},
          open(H + "/MANIFEST.json", "w"), indent=1)
