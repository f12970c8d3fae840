#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table of claims below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
exec(open(os.path.join(here, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech,
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NOT_CLAIMED.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./run.sh build",
     "hooks": {"guard": "none", "enable": "no hooks are needed: every check drives the public API", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One explicit-state model checker (harness/, binary mc) decides every property; see DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
