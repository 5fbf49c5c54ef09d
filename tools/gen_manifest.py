#!/usr/bin/env python3
"""Writes MANIFEST.json: every property the harness knows is claimed, the rest is listed as not claimed yet."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
have = subprocess.run([R + "/run.sh", "list"], capture_output=True, text=True, check=True).stdout.split()
THREADS = {"C10", "C11"}
TECH = {
 True: "stateless model checking of the real pool: threads under a controlled scheduler, preemption-bounded exhaustive search over all interleavings of the pool's shared-memory steps",
 False: "explicit-state exploration of the real code: exhaustive enumeration of all bounded inputs/histories/faults against a reference ClickHouse server model, in virtual time",
}
NOTE = ("Exhaustive within the bounds written to the evidence file (bounds, executions, choice points). The deciding oracle is a reference model of the "
        "ClickHouse native protocol written independently of the crate; every explored trace is an execution of the real code through its public API. "
        "Trusted: the reference model, the in-memory transport standing in for TCP, tokio's paused clock.")
checks = []
for p in props:
    if p["id"] in have:
        t = p["id"] in THREADS
        checks.append({"property": p["id"], "quick_cmd": f"./run.sh check {p['id']} quick",
                       "thorough_cmd": f"./run.sh check {p['id']} thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": TECH[t], "level": "model_checking",
                       "level_note": NOTE + (" Interleavings are explored at the granularity of the hooked queue, atomic and mutex operations under sequential consistency." if t else "")})
m = {"version": 1, "setup_cmd": "./run.sh build",
     "hooks": {"guard": "clickhouse_verif", "enable": "RUSTFLAGS=\"--cfg clickhouse_verif\" (set by run.sh)",
               "source_commits": subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H", "--grep=^verification hook", "--grep=^hook:"], capture_output=True, text=True).stdout.split()},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in have]}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed")
