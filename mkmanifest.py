#!/usr/bin/env python3
"""Writes MANIFEST.json from the units present in sim/."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(H, "levels.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if any(os.path.exists(os.path.join(H, d, i.lower() + e)) for d, e in (("sim", ".cc"), ("pysim", ".py"))):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation, seeded search: " + NOTE[i][0],
            "level": NOTE[i][1],
            "level_note": NOTE[i][2]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 build.py p01", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo: the malloc family is renamed in the compiled library "
                    "objects, readers/writers/kernels/visitors are the library's own seams. "
                    "Replay: python3 check.py --replay FILE."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
