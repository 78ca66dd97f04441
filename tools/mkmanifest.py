#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/props.py and properties.jsonl (run by hand)"""
import json
import os
import sys

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "checks"))
from props import PROPS, NOTES, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [
        {"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
         "evidence_file": f"evidence/{i}.json",
         "technique": "TLA+ specification checked with TLC; traces of the real code validated against it with TLC",
         "level": PROPS[i]["level"], "level_note": NOTES[i]}
        for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "The check of this property is not built yet.")}
                       for i in ids if i not in PROPS],
    "notes": "No hooks: the crate is observed through its public API only. See DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
