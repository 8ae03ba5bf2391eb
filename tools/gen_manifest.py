#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PLAN:
        continue
    p = PLAN[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py run {i} --tier quick",
        "thorough_cmd": f"python3 check.py run {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": p.get("technique", "runtime monitoring: reference-model monitor over generated executions of the real code"),
        "level": "exploration",
        "level_note": "Held on the executions of this run (counts in the evidence file), no claim beyond them. " + p.get("note", "Trusts the harness's wire generator and reference model, written from the RFCs independently of the code under test."),
    })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")} for i in ids if i not in PLAN]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all observation happens at the public API of the crates. /repo carries only fix: commits, listed in known-findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
