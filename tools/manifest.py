#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = os.environ.get("CLAIM", "").split() or [f"C{i:02d}" for i in range(1, 21)]
NA = {
 "C21": "Rendering one page is a pure function of one response: html/template contextual escaping, with no schedule, clock, fault or peer for it to depend on, so seeded search over schedules and faults decides nothing about it; the page is still rendered inside the C14 and C19 simulations, but its markup is not judged.",
}
NOTE = "Real trc code, instrumented from /repo's working tree, in one process under a seeded scheduler with simulated clock, timers, randomness, locks, channels{}. Sampling of schedules, workloads and faults: a quiet run is evidence, not proof. Trusted: the instrumenter, the simulated synchronization primitives and the property's oracle."
net = {"C14", "C15", "C16", "C17", "C20"}
tech = {
 "C19": "deterministic simulation: seeded schedule and fault search, deadlock/livelock/panic detection, race detector on simulated schedules",
}
m = {
 "version": 1,
 "setup_cmd": "tools/setup.sh",
 "hooks": {"guard": "none: /repo is instrumented into a scratch copy at check time (instr/), no hooks are committed in it", "enable": "tools/build.sh rewrites a copy of /repo's working tree (and of the modules it depends on) so that scheduling, clocks, timers, locks, channels, randomness and signals go through /verif/sim", "source_commits": []},
 "checks": [],
 "not_applicable": [],
 "notes": "Every check: ./check ID [quick|thorough]; VERIF_SEED selects the seeds. ./replay FILE re-executes a replay file exactly. Repaired defects are in known_findings.txt.",
}
for l in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
    elif i in claimed:
        m["checks"].append({
            "property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "technique": tech.get(i, "deterministic simulation: seeded schedule and fault search with reference-model oracles"),
            "level": "exploration",
            "level_note": NOTE.format(", HTTP transport and fault injection on it" if i in net else " and fault injection"),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
