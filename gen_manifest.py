#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PURE = ("pure function of its arguments: no schedule, clock, fault, crash point or history can influence it, so there is "
        "nothing for deterministic simulation to decide")
NA = {"C21": "Mode-string and argument parsing is a " + PURE + " (the effect of the flags on files is covered by C17)",
      "C22": "Number and time conversion is a " + PURE + " (its effect on large lock offsets and on file times is covered by C20)"}
NOTE = {}
done = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "dst", "props")) if f.startswith("c") and f.endswith(".py"))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
LEVELS = {}
checks = []
for i in ids:
    if i in done:
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="deterministic simulation with fault injection (seeded scheduler over a simulated kernel)",
            level=LEVELS.get(i, "exploration"),
            level_note=NOTE.get(i, "Seeded search over schedules, inputs and faults of the real library code on a simulated "
                                   "kernel; not exhaustive.")))
    elif i not in NA:
        NA[i] = "the check is under construction"
m = dict(version=1, setup_cmd="python3 selftest.py", checks=checks,
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
