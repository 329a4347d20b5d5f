#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/vmc.py setup", checks=[], not_applicable=[],
         notes="All checks: tools/vmc.py builds the harness from /repo's working tree and runs the exhaustive explorer in lib/. See DESIGN.md.")
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 tools/vmc.py check %s --tier quick" % p,
                                thorough_cmd="python3 tools/vmc.py check %s --tier thorough" % p,
                                evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c["level"],
                                level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check under construction")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
