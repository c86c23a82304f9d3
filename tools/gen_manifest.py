#!/usr/bin/env python3
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
hooks = open(os.path.join(ROOT, "tools", "hook_commits.txt")).read().split() if os.path.exists(os.path.join(ROOT, "tools", "hook_commits.txt")) else []
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "VERIF_SCHED_HOOK", "enable": "check.py compiles /repo/mdbx.c with -DVERIF_SCHED_HOOK=1 for the library variants 'hook' and 'hookasan'; all other variants build the code as it is",
               "source_commits": hooks},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i,
                            "thorough_cmd": "VF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"],
                            "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
