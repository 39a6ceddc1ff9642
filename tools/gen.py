#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and the registry."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools")); sys.path.insert(0, os.path.join(H, "checks"))
sys.dont_write_bytecode = True
from props import P
from registry import CHECKS
P.sort(key=lambda p: p["id"])
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in CHECKS:
        assert not p["na"]
        checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + p["id"],
                       "technique": CHECKS[p["id"]][2], "level": "other", "level_note": p["level_note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "No check has been built for it yet."})
json.dump({"version": 1, "setup_cmd": "python3-vt check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they compile /repo's current sources to LLVM IR or parse them, and never run them."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
