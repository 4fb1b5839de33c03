#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(dict(property=i,
            quick_cmd="VERIF_TIER=quick python3 run.py check " + i,
            thorough_cmd="VERIF_TIER=thorough python3 run.py check " + i,
            technique=p["technique"], level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "the check for this property is not built yet")))
m = dict(version=1, setup_cmd="python3 run.py setup",
         hooks=dict(guard="HRM_VERIF", enable="no hooks are needed: the harnesses in /verif/harness use the public interface and the protected virtual functions of the planners", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ specifications in tla/, checked and used as trace oracles with TLC; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
