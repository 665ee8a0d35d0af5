#!/usr/bin/env python3
"""usage: known.py PROPERTY KEY WHAT : record a genuine defect that is not repaired."""
import sys, json
prop, key, what = sys.argv[1:4]
with open("/verif/known_findings.jsonl", "a") as f:
    f.write(json.dumps({"property": prop, "key": key, "status": "known", "what": what}) + "\n")
