#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties with a check."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
from claims import NOTES, NA
m=dict(version=1,setup_cmd="./setup.sh",
  checks=[],not_applicable=[],
  notes="The simulator is woven into instrumented copies of /repo's sources by sim/rewrite at build time; /repo carries no hooks. See DESIGN.md.")
for p in props:
    i=p["id"]
    if i in NOTES:
        m["checks"].append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",technique="deterministic simulation with fault injection (seeded schedule and fault search)",
            level="exploration",level_note=NOTES[i]))
    else:
        m["not_applicable"].append(dict(property=i,reason=NA.get(i,"machinery under construction")))
with open(os.path.join(root,"MANIFEST.json"),"w") as f: json.dump(m,f,indent=1); f.write("\n")
print(len(m["checks"]),"claimed")
