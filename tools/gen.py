#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import PROPS
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in PROPS:
    if p["runs"]:
        m["checks"].append({
            "property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "property-based testing: " + p["technique"], "level": "exploration",
            "level_note": p["note"] or "generated-input search with shrinking; no proof"})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check under construction"})
m["notes"] = "Everything is generated by tools/gen.py from checks.py. Replay a failing case with: python3 replay.py <file>."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
