#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vf import props
from vf.manifest_text import TEXT
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in props.CHECKS:
        t = TEXT[p]
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t[0], "level": t[1], "level_note": t[2]})
    else:
        na.append({"property": p, "reason": "its monitor is not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library objects are instrumented by compiler flags and by renaming their allocation and file symbols (objcopy). known-findings.json lists the genuine defects that were recorded or repaired."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
