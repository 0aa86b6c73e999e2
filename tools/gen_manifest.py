#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check configuration and the property list."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from config import CHECKS
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
TECH = {
    "C01": "ASan+UBSan run of every recogniser, view and accessor on hostile packets and exactly sized SysEx buffers",
    "C24": "ThreadSanitizer run of concurrent workloads plus comparison of each object's results with its sequential run",
    "C23": "allocator event log checker and result digests compared across allocator builds under ASan+UBSan",
    "C19": "reference monitor over clock readings under interposed virtual time, sanitizer and optimised builds",
    "C20": "online trace monitor over simulated sender histories under interposed virtual time, sanitizer and optimised builds",
}
DEF = "runtime monitor comparing every observed result with an independent reference model, ASan+UBSan and optimised builds"
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": "check under construction"})
        continue
    c = CHECKS[i]
    checks.append({
        "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", TECH.get(i, DEF)), "level": "exploration",
        "level_note": "Held on the executions observed (counts in the evidence), not for all: " + c["rule"] + ". Assumes: "
                      + ("; ".join(c.get("assumptions", [])) or "nothing further")
                      + ". Trusts the reference model in harness/, the compilers and the sanitizers.",
    })
m = {"version": 1, "setup_cmd": "python3 -c \"import sys\" && g++ --version && clang++ --version", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the monitors observe the public interface, an interposed clock_gettime and the library's own allocator customisation points."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
