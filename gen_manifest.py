#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --list",
     "hooks": {"guard": "MTTOOLBOX_MC", "enable": "no hooks are used: the harnesses compile /repo's sources as they are",
               "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                 "technique": CHECKS[p]["technique"], "level": CHECKS[p]["level"], "level_note": CHECKS[p]["note"],
                 "evidence_file": "evidence/%s.json" % p} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in CHECKS],
     "notes": "run.py compiles the harnesses in src/ against /repo's working tree, runs 8 shards of each, re-runs every violation "
              "before reporting it, and writes evidence/. See DESIGN.md."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
