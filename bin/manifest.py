#!/usr/bin/env python3
"""Write MANIFEST.json from props.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS, NOTES, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(
            property=i,
            quick_cmd="python3 bin/check.py %s" % i,
            thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=NOTES[i][0],
            level="model_checking",
            level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specification in spec/, recorders in harness/, driver bin/check.py. See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
