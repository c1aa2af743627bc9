#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (props.py)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS                    # noqa: E402
TOP = os.path.dirname(HERE)

with open(os.path.join(TOP, "properties.jsonl"), "w") as f:
	for p in PROPS:
		assert len(p["title"]) <= 80, p["id"]
		f.write(json.dumps({
			"id": p["id"], "title": p["title"], "statement": p["statement"],
			"quantifier": {"over": p["over"], "text": p["quant"]},
			"why_tests_cant": p["why"],
			"anchors": {"files": p["files"], "mechanism": [
				{"name": a, "where": b} for a, b in p["mech"]]},
		}) + "\n")

checks, na = [], []
for p in PROPS:
	if p.get("na"):
		na.append({"property": p["id"], "reason": p["na"]})
		continue
	checks.append({
		"property": p["id"],
		"quick_cmd": "python3 check.py %s quick" % p["id"],
		"thorough_cmd": "python3 check.py %s thorough" % p["id"],
		"technique": p["tech"], "level": "other", "level_note": p["note"]})
with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
	json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py",
	           "checks": checks, "not_applicable": na,
	           "notes": "Static analysis only: every check parses /repo's "
	           "current source and decides its rule on the syntax tree, the "
	           "resolved call graph or by abstract interpretation. Nothing of "
	           "/repo is imported or executed."}, f, indent=1)
	f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
