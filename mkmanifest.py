#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json
from props import PROPS
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
checks=[]; na=[]
for i in ids:
    if i in PROPS:
        p=PROPS[i]; cf=list(p["configs"])
        mon=[]
        if "rel" in cf: mon.append("behavioural monitor against an independent reference model on the release build")
        if "asan" in cf: mon.append("the same monitor under AddressSanitizer+UndefinedBehaviorSanitizer")
        if "tsan" in cf: mon.append("the same monitor under ThreadSanitizer with injected delays")
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick"%i, thorough_cmd="python3 run.py %s thorough"%i,
            technique="runtime monitoring: "+p.get("technique", "; ".join(mon)), level="exploration",
            level_note=p.get("level_note","generated workloads executed under the monitors; holds on the executions observed, no exhaustiveness claimed"),
            evidence_file="evidence/%s.json"%i))
    else: na.append(dict(property=i, reason="check not built yet"))
m=dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
  notes="No hooks in /repo: harnesses use the public interface and the project's own sources compiled by run.py; see DESIGN.md.")
json.dump(m, open("MANIFEST.json","w"), indent=1); open("MANIFEST.json","a").write("\n")
