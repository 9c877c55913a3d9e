#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
 "C01": "seeded deterministic simulation of a lossy, crashing message mesh; value-graph oracle",
 "C02": "seeded deterministic simulation of a message mesh; identity-shape oracle over value graphs",
 "C03": "seeded deterministic simulation of a mixed cluster (library and reference V8 releases)",
 "C04": "deterministic simulation with damaged, spliced and forged messages; metered work and memory",
 "C05": "deterministic simulation of torn writes, early EOF and lost tails at seeded cut points",
 "C06": "deterministic simulation of clusters of old and new V8 readers; reference-reader oracle",
 "C07": "deterministic fault injection at seeded steps of real calls; differential against fault-free runs",
 "C08": "deterministic thread scheduler over real threads with seeded schedules; sequential oracle",
 "C09": "deterministic thread scheduler and callback faults; structural oracle for == and repr",
 "C10": "deterministic task/thread scheduler over nested settings blocks; reference model of the stack",
 "C11": "seeded histories of resizes, writes, borrows and failures; ECMAScript reference model",
 "C12": "seeded histories with failing sources; property-table reference model",
 "C13": "seeded histories with failing sources and memory reuse; same-value-zero reference model",
 "C14": "deterministic scheduler mutating values at seeded points of a running call; presence oracle",
 "C15": "deterministic simulation of hosts with skewed clocks and zones; exact instant oracle",
 "C16": "deterministic simulation of buffer recycling at seeded points; snapshot oracle",
 "C18": "seeded histories of failing calls and edits with garbage collected at seeded points; reachability oracle by weak references",
 "C17": "seeded step pipelines with refusals and substitutions; reference pipeline model",
}
NOTE = {
 "C01": "no exhaustiveness: seeded search over graphs up to ~40 nodes and mesh plans",
}
NA = {
 "N01": "pure function of one key: no schedule, time, I/O or history for a simulator to decide (its observable effect on objects is covered by C12)",
 "N02": "pure parsing and ordering of constants: nothing to schedule or fail",
 "N03": "pure conversion between two flag sets: nothing to schedule or fail",
 "N04": "pure rendering of an exception already in hand: nothing to schedule or fail",
 "N05": "a static-typing fact: not about executions at all",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "sim", "props", i.lower() + ".py")) and i in TECH:
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} --tier quick",
            "thorough_cmd": f"./check {i} --tier thorough",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": NOTE.get(i, "seeded search, fixed number of runs per tier; bounds and measures in the evidence file and DESIGN.md"),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
doc = {
    "version": 1,
    "setup_cmd": "./check --selftest",
    "hooks": {"guard": "none", "enable": "no hooks were needed: every seam (callbacks, buffers, files, threads via sys.settrace, zones) already exists"},
    "checks": checks,
    "not_applicable": na,
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
