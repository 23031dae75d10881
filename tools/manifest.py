#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "D02": "Compile-time utilities are pure functions of types and constants, evaluated by the compiler; nothing happens at run time that a scheduler or fault injector could act on.",
}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: the harness compiles the unmodified headers with -fsanitize=thread and supplies its own runtime, so every load and store of library code is a simulator event (scheduling point, crash point, containment check). See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "./check.py %s quick" % i,
            "thorough_cmd": "./check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "deterministic simulation: seeded search over histories, schedules and faults against a reference model; minimised replay files"),
            "level": "exploration",
            "level_note": c.get("note", "Seeded random search over simulated executions of the real headers: finds violations, does not prove their absence. Trusts g++/libstdc++ and the reference model in the harness."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Check not built yet.")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
