#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path.insert(0, here)
from checks import CHECKS
NA = {}
exec(open(os.path.join(here, "not_applicable.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py --build",
  hooks=dict(guard="none", enable="no hooks: the checks only use the public API", source_commits=[]),
  checks=[dict(property=i, quick_cmd="VERIF_TIER=quick python3 run.py %s" % i,
               thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
               technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["note"])
          for i in props if i in CHECKS],
  not_applicable=[dict(property=i, reason=NA.get(i, "no check built yet")) for i in props if i not in CHECKS],
  notes="TLA+/TLC specifications in spec/, Rust conformance harness in harness/, driver run.py; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
