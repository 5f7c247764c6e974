#!/usr/bin/python3
"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from registry import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("TLC checks the property on the bounded model spec/MC{s}.tla exhaustively; walks through its state graph (covering all its transitions, up to a step budget for the largest models) are replayed on the real code and compared after each step, and "
        "random traces recorded from the real code are validated by TLC against the same specification. Trusts the hardware stand-ins (harness/world.py), TLC, and "
        "the bounds of the model; beyond them the code is sampled.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        mods = " ".join(sorted(set(c for _, c in PROPS[i])))
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick /usr/bin/python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough /usr/bin/python3 check.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=f"TLA+ specification ({mods}) checked with TLC; model-generated behaviours replayed into the code and recorded traces validated by TLC",
                           level="model_checking", level_note=NOTE.format(s=mods.replace(" ", ", MC"))))
    else:
        na.append(dict(property=i, reason="the specification and its conformance check are not built yet"))
json.dump(dict(version=1, setup_cmd="/usr/bin/python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="Two-way conformance between TLA+ specifications (spec/) and the firmware in /repo. See DESIGN.md. No hooks in /repo are needed."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
