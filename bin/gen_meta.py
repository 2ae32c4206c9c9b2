#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from bin/meta/*.json-like tables in meta.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    if p["statement"].count(". ") > 2:
        print("more than three sentences:", p["id"])
na = {x["property"] for x in NOT_APPLICABLE}
m = dict(version=1, setup_cmd="python3 bin/setup.py",
         hooks=dict(guard="none", enable="no hooks are needed: the drivers use the public interface", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="python3 bin/check.py %s quick" % p["id"],
                      thorough_cmd="python3 bin/check.py %s thorough" % p["id"],
                      technique=p["technique"], level=p["level"], level_note=p["level_note"]) for p in PROPS if p["id"] not in na],
         not_applicable=NOT_APPLICABLE)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
