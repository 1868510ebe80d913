#!/usr/bin/env python3
"""Regenerates MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import jobs
checks, na = [], []
for line in open(H + "/properties.jsonl"):
    p = json.loads(line)
    s = jobs.PROPS.get(p["id"])
    if not s:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "technique": s.get("technique", "runtime monitoring under sanitizers"),
                   "level": "exploration",
                   "level_note": s.get("note", "Holds on the executions explored (random and hostile workloads from VERIF_SEED, sanitizers on); says nothing about executions not generated. Trusts the harness oracle, the sanitizers and the kernel.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: system calls and mutex operations of the library's object files are renamed with objcopy to an instrumented layer (src/iol.cpp)."},
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
