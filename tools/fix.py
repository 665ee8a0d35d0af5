#!/usr/bin/env python3
"""usage: fix.py PROPERTY KEY SUBJECT WHAT : commit /repo's working tree as a fix and record it."""
import sys, subprocess, json
prop, key, subject, what = sys.argv[1:5]
subprocess.check_call(["git", "-C", "/repo", "commit", "-qam", "fix: " + subject])
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
with open("/verif/known_findings.jsonl", "a") as f:
    f.write(json.dumps({"property": prop, "key": key, "status": "fixed", "commit": h, "what": what,
        "line": f"fixed: property={prop} {h} {what}"}) + "\n")
print(h)
