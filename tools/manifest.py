#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
TECH = "runtime monitoring: real code under generated and hostile workloads, judged by an independent oracle"
RACE = "runtime monitoring: Go race detector over concurrent workloads, with outcome-equality and history monitors"
TECHS = {"C13": RACE, "C21": "runtime monitoring: Go race detector, porcupine linearizability checker over recorded histories, model-based query oracle"}
NOTES = {}
exec(open(here + "/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{here}/harness/cmd/{i.lower()}/main.go"):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": TECHS.get(i, TECH), "level": "exploration",
            "level_note": NOTES.get(i, "Holds on every execution observed; the case lists are fixed by VERIF_SEED. Trusts the Go standard library's cryptography and the harness's own oracle.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks were needed: the monitors observe the public API, wrapped collaborators (resolvers, loaders, HTTP clients, stores) and the race detector", "source_commits": []},
     "notes": "One Go driver per property under harness/cmd; ./check.sh builds it from /repo's working tree (replace directive) and runs it sharded. Known findings: known_findings.jsonl."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
