#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness files that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
SCHED = {"C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C36", "C52"}
TECH = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/harness/%s.cpp" % (V, i.lower())):
        note = ("Held on every generated case of the run; the scheduler owns every interleaving, the clock and wake-ups, at memory-access granularity of the library's own code. Trusts the scheduler's pthread model and the harness's sequential model."
                if i in SCHED else
                "Held on every generated case of the run (random and coverage-guided, under AddressSanitizer); no proof of absence. Trusts the harness's independent oracle.")
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, "property-based testing"), "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
if os.path.exists(V + "/tools/hooks.json"):
    m["hooks"] = json.load(open(V + "/tools/hooks.json"))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
