"""Writes MANIFEST.json from gv/meta.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from gv import meta  # noqa: E402

NOTE = {}
TECH = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())  # fills NOTE, TECH

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
  i = p["id"]
  if i in meta.META:
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i} --tier quick",
        "thorough_cmd": f"./check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, "runtime monitoring: randomized workloads against an online oracle"),
        "level": meta.META[i]["level"],
        "level_note": NOTE.get(i, "Bounded exploration: holds on the executions observed; reach comes from workload "
                                  "diversity and injected timing. Trusts the reference oracle in gv/."),
    })
  else:
    na.append({"property": i, "reason": "No check built yet."})
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "No hooks are added to /repo: monitors attach from outside (user functions, sources, "
                "states, /proc, shared-memory names). Commits in /repo are defect repairs only."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
