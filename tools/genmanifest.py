#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
covered = set(os.popen(os.path.join(root, 'mc/target/release/mc') + ' list').read().replace('\n', ',').replace(' ', ',').split(','))
TECH = "stateless model checking of the real crate: exhaustive bounded enumeration of {} against a reference model"
what = {
 'C01': 'operation scripts, transport answers and task schedules', 'C02': 'operation scripts and thread interleavings', 'C03': 'peer scripts',
 'C04': 'read/data scripts', 'C05': 'read/data/clock scripts', 'C06': 'two-endpoint task schedules over bounded pipes', 'C07': 'schedules with generational wakers',
 'C08': 'half-close scripts and schedules', 'C09': 'drop/reset scripts and schedules', 'C10': 'close scripts and schedules', 'C11': 'failure points and scripts',
 'C12': 'hostile frames in every state and truncation', 'C13': 'peer open/update scripts', 'C14': 'histories with every short write and pause', 'C15': 'open scripts',
 'C16': 'open/first-use scripts', 'C17': 'event orders around the backlog limit', 'C18': 'open/drop scripts at small limits', 'C19': 'ping/pong/clock scripts',
 'C20': 'scripts on a blocked transport', 'C21': 'schedules over flush-gated transports', 'C22': 'multi-stream schedules', 'C23': 'thread interleavings up to a preemption bound', 'C24': 'end-of-connection scripts in both configurations'}
checks, na = [], []
for p in props:
    i = p['id']
    if i not in covered:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.format(what[i]),
        "level": "model_checking",
        "level_note": "Exhaustive within the bounds stated in the evidence file (script depth, number of streams, deviations, preemptions); every execution is run on the real code. Trusts the reference model in mc/src/mon.rs, the API-compatible shims of parking_lot/web-time/futures-channel, and sequential consistency of the explored interleavings.",
    })
m = {"version": 1, "setup_cmd": "cd mc && (cargo build --release --offline --quiet || RUSTFLAGS='--cfg yamux_no_hooks' cargo build --release --offline --quiet)", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg(yamux_verif)", "enable": "mc/.cargo/config.toml passes --cfg yamux_verif to rustc; check.sh falls back to a build without it", "source_commits": ["7dae2b456d7294eccef739663eed801687bee49f"]},
     "notes": "One hook in /repo (starting value of stream ids). Everything else is replaced from outside: parking_lot, web-time and futures-channel through [patch.crates-io] of the harness crate."}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
