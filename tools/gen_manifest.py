#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = ("explicit-state model checking of the implementation: breadth-first exploration of command histories, states deduplicated by a heap digest, every reply judged by a reference model",
       "Exhaustive within the stated alphabet, depth and size bounds on the real (instrumented) code; every explored transition is an execution of the implementation, including all low random draws and map orders where configured. Trusts the instrumenter, the reference model and the Go toolchain.")
SCHED = ("stateless model checking of the implementation: controlled scheduler enumerates all schedules up to a deviation bound (locks, channels, timers, statements as scheduling points), outcomes judged by a reference model",
         "Exhaustive within the stated scenarios and deviation bounds on the real (instrumented) code under a controlled scheduler with virtual time. Assumes sequential consistency at the granularity of the inserted scheduling points.")
ENUM = ("bounded model checking of the implementation by explicit enumeration: every input and environment behaviour (read splits, stutters, faults) up to a bound is executed on the real code, judged by an independent grammar model",
        "Exhaustive within the stated lengths and alphabets. Trusts the reference grammar and the Go toolchain.")
T = {}
for p in "C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C25 C26 C27 C28".split(): T[p] = SEQ
for p in "C04 C19 C20 C21 C22 C23 C24 C29 C30 C31".split(): T[p] = SCHED
for p in "C01 C02 C03".split(): T[p] = ENUM
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in T:
        m["checks"].append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough", "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
