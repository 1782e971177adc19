#!/usr/bin/env python3
import json, sys, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from props import PROPS, NOT_APPLICABLE
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
checks=[]
for i in ids:
    if i in PROPS:
        P=PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick"%i, thorough_cmd="python3 check.py %s --tier thorough"%i,
            evidence_file="evidence/%s.json"%i, technique=P["technique"], level=P["level"], level_note=P["note"], **({"theorems":P["theorems"]} if "theorems" in P else {})))
na=[dict(property=i, reason=NOT_APPLICABLE.get(i,"no check built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
  hooks=dict(guard="none: no hooks were needed in /repo", enable="nothing to enable", source_commits=[]),
  notes="Every check builds /verif/harness against /repo's working tree and re-extracts the functions under contract. See DESIGN.md."),
  open(V+"/MANIFEST.json","w"), indent=1)
