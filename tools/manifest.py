#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list in tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPERTIES, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        f.write(json.dumps({k: v for k, v in p.items() if k != "check"}, ensure_ascii=False) + "\n")

checks = []
for p in PROPERTIES:
    c = p.get("check")
    if c:
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"./run.sh {p['id']} quick",
                "thorough_cmd": f"./run.sh {p['id']} thorough",
                "technique": c["technique"],
                "level": c["level"],
                "level_note": c["note"],
            }
        )
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(
        {
            "version": 1,
            "setup_cmd": "./setup.sh",
            "checks": checks,
            "not_applicable": NOT_APPLICABLE,
            "notes": "The checks import edulint from /repo's working tree; there is nothing to build "
            "and no hooks are used.",
        },
        f,
        indent=1,
    )
    f.write("\n")
