#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the properties and the checks registered below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
# property -> (technique, level note)
C = {}
exec(open(os.path.join(here, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "One analyser (/verif/analyzer, Go, built offline by build.sh) reads /repo's current source on every run; see DESIGN.md. No hooks are used."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
