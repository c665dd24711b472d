#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_src.py and registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from props_src import P
from registry import PROPS

checks = []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] not in PROPS:
            continue
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["state"]:
            anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
        checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": PROPS[p["id"]]["level"], "level_note": p["note"]})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": [], "notes": "See DESIGN.md. No hooks in /repo are needed: the abstract state is visible through the public API."}, f, indent=1)
    f.write("\n")
missing = set(PROPS) - {p["id"] for p in P}
assert not missing, missing
print(len(checks), "properties")
