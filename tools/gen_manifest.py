#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {}
note = ("Seeded search, not proof: thousands of simulated executions of the real hyperdrive code (derive output, services, "
        "adapters, blocking) per run, each a fixed function of its seed, judged step by step against an executable reference model. "
        "Trusted: the model, hyper/h2/http/regex/serde where the model uses them, and the simulator's executor, clock, sockets and "
        "blocking pool standing in for tokio's. ")
extra = {
    "P03": "H1 bytes on the wire are parsed by the simulator's own HTTP/1 client, so stray body bytes break the following response. ",
    "P06": "Truncation is injected by cutting the client's bytes, by resets and by failing body streams. ",
    "P11": "The blocking pool is the simulator's, reached through tokio_threadpool's own default hook for blocking. ",
    "P15": "The tokio current_thread runtime is real here; wake-ups from other tasks are injected by scripted futures on that runtime. ",
    "P16": "Liveness is judged as progress to an outcome before the event queue is empty, and by a simulated-time bound. ",
}
m = {
    "version": 1,
    "setup_cmd": "./run_check.sh --setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "./run_check.sh %s quick" % p["id"],
            "thorough_cmd": "./run_check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "deterministic simulation with fault injection (seeded schedules, faults and programs; reference-model oracle; minimised replay)",
            "level": "exploration",
            "level_note": note + extra.get(p["id"], ""),
        }
        for p in props if p["id"] not in NA
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo are needed: hyperdrive takes every source of nondeterminism through its arguments, through futures, or through "
             "tokio_threadpool's replaceable blocking section. Replay a violation with ./run_check.sh --replay FILE [--trace].",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
