"""Writes MANIFEST.json from the property modules that exist."""
import json
import os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(line) for line in open(os.path.join(here, "properties.jsonl"))]
NA = {}
NOTE = {}
try:
    from manifest_notes import NA, NOTE, TECH
except ImportError:
    TECH = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or not os.path.exists(os.path.join(here, "props", i + ".py")):
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
        continue
    checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": TECH.get(i, "property-based testing: generated inputs against an oracle, with shrinking"),
                   "level": "exploration", "level_note": NOTE.get(i, "Held on the generated cases only.")})
json.dump({"version": 1, "setup_cmd": "python3-vt vf/build.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks run the unmodified package built from /repo's working tree."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
