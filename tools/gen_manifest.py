#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Exhaustive TLC exploration of the TLA+ model under small constants, and TLC trace "
        "validation of executions of the real code (behaviours printed by TLC plus seeded random "
        "histories). Trusts the drivers' projection of the public API, the generator's coverage "
        "and TLC. ")
m = dict(version=1, setup_cmd="python3 tools/vf.py setup",
         checks=[dict(property=p, quick_cmd="VERIF_TIER=quick python3 tools/vf.py check " + p,
                      thorough_cmd="VERIF_TIER=thorough python3 tools/vf.py check " + p,
                      evidence_file="evidence/%s.json" % p,
                      technique="TLA+ specification: TLC model checking + replay into / trace validation of the real code",
                      level="model_checking", level_note=NOTE + props.PROPS[p].get("note", ""))
                 for p in allp if p in props.PROPS],
         not_applicable=[dict(property=p, reason=props.NA.get(p, "check not built yet"))
                         for p in allp if p not in props.PROPS])
if props.HOOKS:
    m["hooks"] = props.HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
