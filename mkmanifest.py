#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
d = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation: seeded search over "
checks = {
 "C01": ("schedules of concurrent scoring and self-verification, race detector over simulated schedules, reference = same call alone on fresh objects",
         "Instrumented real code, one task at a time, preemption before every statement; random-walk, PCT and sticky schedulers; races by TSan happens-before."),
 "C02": ("map orders, pool drops, clocks, random state, restarts and processes; all executions of one scenario must agree bit for bit",
         "Each scenario is executed under several environments in one process and again in a separate process."),
 "C03": ("call histories (failed calls, verification, panicking values in between) against the same call alone on fresh objects",
         "Histories of tens of calls on the real code; reference re-executes each call on a freshly parsed and built model."),
 "C04": ("schedules and histories with rows shared between models and tasks and rows/results overwritten by the caller",
         "Row contents compared before and after; shared rows under the race detector; overwrites must not be visible anywhere."),
 "C05": ("build histories and concurrent builds from one parsed document while other models score",
         "Document dumped before and after; behaviour of every model compared with one from a private parse; race detector."),
 "C06": ("read plans and source faults (short, empty, data+EOF, stall, error, panic, goexit, truncation at every offset drawn)",
         "Loaded content compared structurally with a one-read load; failed sources must surface their own error."),
 "C07": ("storage damage to numbers a prediction depends on, read back through the real loader and scorer",
         "Damaged text is never a number; any successful score on rows that need it is a violation; a control shows the number matters."),
 "C08": ("storage faults (bit flips, zeroed, lost, duplicated, stale, torn bytes and records) with load, build, verify and scoring under step and stack limits",
         "Panic, fatal error, deadlock or step-limit overrun is a violation; wrong values are not judged here."),
 "C09": ("concurrent and earlier loads, builds and scores of other documents, with stalled, failing and panicking sources, cold process start",
         "Every outcome compared with the same call alone in a fresh process image; race detector."),
 "C10": ("damage to stored parameters and recorded values, verification run twice between scoring calls",
         "Recorded values computed from the real model; independent comparison of recorded and predicted values decides what verification must say."),
 "C11": ("array reads by concurrent readers in all orders, with readers overwriting what they got",
         "Real parser and array code, reference = first read of a fresh parse; race detector."),
 "C12": ("failing, panicking, exiting, stalling and re-entrant callbacks inside scoring calls, concurrent callers, then later calls",
         "Progress within a step bound, outcomes as alone on a fresh model, race detector."),
 "C13": ("sequences of Validate, Compile and Verify on a built model with scoring in between",
         "Every scoring and lifecycle outcome compared with a freshly built model."),
 "C14": ("repeated call sequences with never-repeating values and faults; live heap and goroutines measured at quiescence",
         "Growth in every one of several windows over thousands of laps is a violation; a cache that levels off is not."),
}
na = "a pure function of one document and one row: no schedule, clock, I/O, history or fault for it to depend on, so seeded search over schedules and faults decides nothing about it; "
nas = {
 "N01": na + "it needs an oracle for PMML predicate semantics",
 "N02": na + "it needs an oracle for PMML missing-value semantics",
 "N03": na + "it needs an oracle for PMML regression semantics",
 "N04": na + "it needs an oracle for PMML segmentation semantics",
 "N05": na + "it needs an oracle for PMML expression semantics",
 "N06": na + "it needs an oracle for the PMML schema",
 "N07": na + "it needs an oracle for PMML verification tolerances",
 "N08": na + "it needs an oracle for value conversion",
}
ids = [json.loads(l)["id"] for l in open(d + "/properties.jsonl")]
assert sorted(ids) == sorted(list(checks) + list(nas)), set(ids) ^ set(list(checks) + list(nas))
m = {"version": 1,
     "setup_cmd": "./check setup",
     "checks": [{"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": T + t, "level": "exploration", "level_note": n}
                for i, (t, n) in checks.items()],
     "not_applicable": [{"property": i, "reason": r} for i, r in nas.items()]}
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
open(d + "/MANIFEST.json", "a").write("\n")
