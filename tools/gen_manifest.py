#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl, sim/props and the notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
PURE = {
 "C30": "Broadcasting is a pure function of its arguments: no clock, schedule, I/O, fault or history for a simulator to control.",
 "C34": "The Rust extension is not built in this sandbox, so only one of the two engines exists here; dispatch is a pure lookup.",
 "C35": "Standalone plotting functions are pure views of their arguments; nothing to schedule or fault.",
}
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "sim", "props", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
                           technique="deterministic simulation with fault injection", level="exploration",
                           level_note=NOTES.get(p, "Seeded search over simulated runs; no claim beyond the runs explored.")))
    else:
        na.append(dict(property=p, reason=PURE.get(p, "Not built yet.")))
m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=na,
         notes="No hooks were needed in /repo: every seam is reached from outside (module globals, subclassing, injected clients).")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
