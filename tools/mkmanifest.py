#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. READY lists the properties whose checks are registered."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
READY = os.environ.get("READY", open(os.path.join(here, "tools/ready")).read()).split()
RS = "real: go/transport/rsocket, handler, proxy, rx, frames, buffer, socket of the working tree, recompiled with scheduling points; stubbed: TCP (simulated byte-stream network), clock, scheduler"
RUST = "Samples schedules, inputs and fault sequences; no proof of absence. Trusts the stand-ins (scheduler, tokio's tasks and channels, parking_lot, dashmap, std::sync, the wasm engine and its memory) to behave as the real ones are documented to, sequential consistency at their operations, the guest crates' wasm configuration compiled for this machine, and the oracle."
NA = {
 "N03": "frame fragmentation is a pure function and is not called by any shipped path (all call sites are commented out); frame encoding itself is exercised end to end under C01-C03 and C19.",
 "N04": "UUID parsing and formatting are pure functions of their input.",
 "N05": "the code generator is an offline TypeScript program, a pure function of its input file.",
}
checks = []
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
for i in ids:
    if i in READY:
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
            "technique": "deterministic simulation: seeded search over schedules, network behaviour and faults with history oracles",
            "level": "exploration",
            "level_note": RUST if "C28" <= i <= "C34" else "Samples schedules, inputs and fault sequences; no proof of absence. Trusts the simulated runtime (scheduler, channels, locks, network, wasm boundary) to admit only behaviour Go and TCP allow, sequential consistency at instrumented statements, and the oracle. Components run for real and stubbed are listed in the evidence."})
    elif i not in NA:
        NA[i] = "check under construction"
m = {"version": 1, "setup_cmd": "bash run.sh --build",
     "hooks": {"guard": "none", "enable": "No hooks are committed to /repo. Every check instruments a copy of /repo/go's current sources (simgen) and builds it through go build -overlay; the Rust checks build a copy of /repo/rust/crates' current sources (rsim/prep.py) against stand-ins for their dependencies. /repo itself is unchanged.", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(NA)],
     "notes": "bash run.sh --replay FILE reproduces a reported violation exactly; VERIF_TRACE=1 prints every step. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
