#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl, checkers.py and the table below."""
import json, os
import checkers
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in checkers.CLAIMS:
        tech, note = checkers.CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": tech, "level": checkers.LEVELS.get(i, "model_checking"), "level_note": note})
    else:
        na.append({"property": i, "reason": checkers.NOTCLAIMED.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 vbuild.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checkers compile /repo's sources as they are and redirect their libc calls at link time."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
