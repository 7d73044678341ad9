#!/usr/bin/env python3
"""Writes MANIFEST.json from proptable.py."""
import json, os
from proptable import PROPS
V = os.path.dirname(os.path.abspath(__file__))
NA = {
    "N01": "Pure single-threaded numerical function of its arguments: no schedule, clock, I/O, randomness or fault for the result to depend on, so a simulator has nothing to decide.",
    "N02": "Pure arithmetic on the arguments: no concurrency, time, I/O or multi-party behaviour to simulate.",
    "N03": "Pure value conversions: no concurrency, time, I/O or multi-party behaviour to simulate.",
    "N04": "Pure index/location arithmetic on an immutable object: no concurrency, time, I/O or fault to simulate.",
}
TECH = "deterministic simulation with fault injection: seeded search over schedules, inputs and fault sequences"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": [
        {"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
         "evidence_file": "evidence/%s.json" % p, "technique": TECH + PROPS[p].get("tech", ""),
         "level": PROPS[p]["level"],
         "level_note": PROPS[p].get("note", "Seeded search over simulated executions of the real code against a reference model; not exhaustive. "
                       "Sequentially consistent execution with a happens-before race detector; every failure is replayed exactly before it is reported.")}
        for p in ids if p in PROPS],
    "not_applicable": [{"property": p, "reason": NA.get(p, "Check not built yet.")} for p in ids if p not in PROPS],
    "notes": "No hooks in /repo: the seams are the compiler's thread-sanitizer instrumentation, symbol interposition of the threading, "
             "OpenMP, time, allocation and file interfaces, and the callbacks and generators the library already takes as parameters.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
