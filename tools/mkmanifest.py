#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and vlib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.props import PROPS
NA = {
 "N01": "Purely numerical statement about sampling densities of single calls; no schedule, clock, I/O or fault decides it, so a simulator has nothing to control.",
 "N02": "A statement about expectations of estimators; deciding it needs statistics over samples, not schedules or faults.",
 "N03": "Pure, synchronous, in-memory conversion without concurrency, time or I/O.",
 "N04": "Pure math functions without concurrency, time or I/O.",
 "N05": "The behaviour depends on the CPython interpreter, its GIL and its allocator, whose scheduling is outside every seam the simulator can control here; running the bindings would only observe executions whose nondeterminism is not controlled.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i, evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with seeded schedule and fault search", level="exploration",
            level_note="Seeded search over schedules, faults and workloads on the real library code inside one simulated process; no violation found in the explored runs is not a proof. Assumes: " + "; ".join(p["assumptions"]) + "."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Check under construction; not claimed yet.")))
m = dict(version=1, setup_cmd="python3 vlib/build.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the simulator interposes at the compiler-instrumentation, OpenMP, pthread, clock, allocation, file, dynamic-loader and standard-output seams of the unmodified sources. Replay: python3 check.py --replay <file>.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
