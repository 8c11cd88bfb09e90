#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of properties not claimed."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
NA = {
    "C21": "Pure functions of their arguments: no schedule, time source, I/O or second party takes part, so there is nothing to simulate and no fault to inject. (Every simulated run uses them, and a wrong result would show in the clocks that C03 checks, but that does not decide the property.)",
}
TECH = "deterministic simulation with fault injection: seeded schedules over the real crate, judged against an executable reference model and history laws"
NOTE = "Seeded exploration, no proof: {}. Trusts the simulator's primitives (dst/sim, dst/facade), the generator's range of programs and the reference model (dst/harness/src/refm.rs); sequential consistency plus bounded staleness of loads where enabled."
N = {
    "C01": "two or more schedules of one program are compared event by event",
    "C02": "histories of every channel are checked for FIFO, exactly-once and closure",
    "C03": "every operation's clock and stamp is compared with the reference",
    "C04": "clocks of blocked sends are compared with the reference and occupancy with the capacity law",
    "C05": "every answer of a peek or event query is checked against what is received later",
    "C06": "views are driven directly and through programs; answers are checked against the recorded clock history",
    "C07": "a run that deadlocks, or does not end although scheduling is fair, is a violation",
    "C08": "programs with inference on are held to the reference, which knows no flavors; backpressure-dependent programs are excluded (known finding)",
    "C09": "failures and panics at any operation, spawn failures; containment laws and reference",
    "C10": "ends of either side at any operation; closure laws and reference",
    "C11": "memory unit against a timed reference memory",
    "C12": "DRAM against a timed reference; needs the constructors under cfg(dam_sim_dram), without which the check cannot run its workloads",
    "C13": "concurrent timed histories against the timed-register specification",
    "C14": "utility contexts against the reference and failure expectations",
    "C15": "contents of a simulated database after run() with delayed, reordered and failing operations",
    "C16": "compute unit against a reference evaluation of its stages and timing",
    "C17": "summary against the recorded ends of all contexts",
    "C18": "concurrent programs, each against its own reference, and identifiers compared",
    "C19": "the three other builds against the same reference model",
    "C22": "programs whose channel ends are used through the adapters, against the reference that knows none",
    "C23": "the exported graphs are parsed and compared with the program built, the contexts that succeeded and the clocks at which they ended",
    "C20": "programs with injected wiring faults, and whole ones, are initialized and run",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 dst/check.py --prop %s --tier quick" % i,
        "thorough_cmd": "python3 dst/check.py --prop %s --tier thorough" % i,
        "technique": TECH,
        "level": "exploration",
        "level_note": NOTE.format(N[i]),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 dst/tools/build.py plain mongo unbounded cycle dot",
    "hooks": {
        "guard": "cfg(dam_sim), cfg(dam_sim_dram)",
        "enable": "RUSTFLAGS='--cfg dam_sim --cfg dam_sim_dram', set by dst/tools/build.py, which also supplies the dam_sim_std crate the hook names",
        "source_commits": ["1e67eea12f3a23cb91068e25f99003d16eb81671"],
    },
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "One harness (dst/harness), built against a content copy of /repo's working tree with simulated std, channels, locks, futures and database. Replay a violation with: build/bin/dst-<set> replay <file>. Known findings: known_findings.json.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
