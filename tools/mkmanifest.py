#!/usr/bin/env python3
"""MANIFEST.json from the catalogue of rules"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "engine"))
import catalogue as c
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in c.CHECKS:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 engine/check.py %s" % i,
        "thorough_cmd": "python3 engine/check.py %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": getattr(c, "TECH", {}).get(i, "static analysis: trace-partitioning abstract interpretation of the clang AST, rules over all path effects"),
        "level": "other",
        "level_note": c.TABLE[i][1] + " Sound for all inputs and states of the modelled fragment up to the listed assumptions; constructs without a model are reported as undecided obligations in the evidence and raise no alarm.",
    })
na = [{"property": i, "reason": c.NOT_APPLICABLE.get(i, "check under construction")} for i in ids if i not in c.CHECKS]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo. All checks parse /repo's working tree anew on every run (no build of the repository is needed); nothing of the repository is executed.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
