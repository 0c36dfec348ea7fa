#!/usr/bin/env python3
"""Writes MANIFEST.json from families.py and properties.jsonl."""
import json
from families import PROPERTIES
props = [json.loads(l) for l in open("properties.jsonl")]
NOTE = ("Exhaustive over the bounded TLA+ models of the families named in DESIGN.md (TLC), every behaviour replayed into the real "
        "library over a simulated network and clock, every recorded history judged by TLC against the specification. Assumes that the "
        "simulated socket interface behaves like the kernel's and that the server's reactions lie in the models' menus.")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in PROPERTIES:
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                            "technique": "TLA+ specification explored by TLC; behaviours replayed into the library, recorded histories judged by TLC",
                            "level": "model_checking", "level_note": PROPERTIES[i].get("note", "") + NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
m["notes"] = "Specification language: TLA+ (TLC). No hooks in /repo: the library's public interface and the socket calls are observed from outside."
json.dump(m, open("MANIFEST.json", "w"), indent=1)
