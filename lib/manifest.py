#!/usr/bin/env python3
"""Writes MANIFEST.json from parts.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from parts import PARTS, LEVEL, TECH, NOTE, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in PARTS:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": TECH.get(p, "bounded exhaustive enumeration of the real code against a reference model"), "level": LEVEL.get(p, "exploration"), "level_note": NOTE.get(p, "exhaustive within the bounds in DESIGN.md")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'lib'); import vbuild\"",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unchanged", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in PARTS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
