#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and na.json."""
import json, os
from props import PROPS, NOTES, NA
V = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: seeded search over schedules, delays and faults, checked against an executable reference"
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "hooks": {"guard": "TRACE_BUFFER_CAPACITY", "enable": "the images of traced programs are compiled by build.py with -DTRACE_BUFFER_CAPACITY=<small number>; without it the value is unchanged", "source_commits": ["c1644f4"]},
     "notes": "Apart from one guarded constant, every seam is a library call (linker --wrap) or compiler instrumentation of the unmodified sources. See DESIGN.md."}
for p in sorted(PROPS):
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p, "technique": TECH, "level": "exploration", "level_note": NOTES[p]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
