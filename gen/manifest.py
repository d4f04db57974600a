#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

NOT_APPLICABLE = {}

ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{
        "property": id,
        "quick_cmd": f"python3 check.py {id}",
        "thorough_cmd": f"python3 check.py {id} --tier thorough",
        "technique": PROPS[id]["technique"],
        "level": PROPS[id]["level"],
        "level_note": PROPS[id]["note"],
    } for id in ids if id in PROPS],
    "not_applicable": [{"property": id, "reason": NOT_APPLICABLE.get(id, "check not built yet")} for id in ids if id not in PROPS],
    "notes": "No hooks in /repo: everything is observed at the public API. See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
