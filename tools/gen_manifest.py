#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from config import CHECKS, TECH, LEVEL_NOTE, NOT_APPLICABLE
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                           technique=TECH.get(i, "runtime monitoring"),
                           level=CHECKS[i].get("level", "exploration"), level_note=LEVEL_NOTE.get(i, LEVEL_NOTE["default"])))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="Every check compiles its harness from /repo's current headers, runs it under sanitizers and monitors, and judges the recorded behaviour. No hooks are needed: the library is header-only and fully observable through its public API, user allocators, element types and callables."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
