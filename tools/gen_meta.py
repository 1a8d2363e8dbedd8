#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json-like entries."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
import sys
sys.path.insert(0, str(V / "tools"))
from props import PROPS, NOT_APPLICABLE

checks = {p.stem.split("_")[0].upper() for p in (V / "harness" / "checks").glob("c[0-9]*_*.py")}
with (V / "properties.jsonl").open("w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "TLA+ specifications in spec/ (checked by TLC), replayed on and validated against /repo by run.py; see DESIGN.md. No hooks are needed in /repo.",
}
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        man["not_applicable"].append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
    elif p["id"] in checks:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": f"python3 run.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["level_note"],
        })
    else:
        man["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(PROPS), "properties,", len(man["checks"]), "checks")
