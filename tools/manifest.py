#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness/props.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
built = json.load(open(root + "/harness/props.json"))
NA = {
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        b = built[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "technique": b.get("technique", "property-based testing: generated histories against a reference model (rapid)"),
          "level": b.get("level", "exploration"), "level_note": b.get("note", "Searches generated cases with a fixed seed; silence is evidence, not proof. " + " ".join(b.get("assumptions", []))).strip()})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are ./check.sh <id> <tier>; ./check.sh replay <file> runs a saved failure again. Go test binaries are rebuilt from /repo's working tree on every run."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
