#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOTES, TECH
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 bin/setup", "checks": [], "not_applicable": []}
for p in props:
    if p in PLAN:
        m["checks"].append({
            "property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
            "technique": TECH.get(p, TECH["all"]), "level": "model_checking",
            "level_note": NOTES.get(p, NOTES["all"])})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
m["notes"] = ("TLA+ with TLC. bin/check <id> replay files: bin/check replay <file>. "
              "No hooks are needed: everything is observed through the public API.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
