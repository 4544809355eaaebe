#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json
NA = {
 "C21": "completeness of each decoder is a pure function of its input stream and needs conforming encoders for every format; the simulation uses pre-compressed samples of each method, so it cannot decide it",
}
NOTE = ("Seeded search over generated archives, caller histories, schedules (statement granularity) and faults against an executable model of the archive; "
        "no claim of exhaustiveness. Trusts the harness's archive encoder and reference filters, the third-party codecs' atomicity between scheduling points, "
        "and the Go race detector where it is used.")
TECH = {
 "C19": "deterministic simulation: seeded forged headers (checksums recomputed) opened and used on simulated storage with faults and other callers; panics, hangs and allocations as invariants",
 "C20": "deterministic simulation: seeded header forms, histories of opens and queries by several callers with storage faults, checked against a model of the stored fields",
 "C22": "deterministic simulation: storage reads that stall until no other caller can run; callers blocked at that point are the violation",
 "C23": "deterministic simulation: seeded histories of reads over streams of tens of megabytes with faults and several callers; memory in use measured at points of the run and after everything is dropped",
 "C24": "deterministic simulation: seeded headers of all kinds and changes to them, opened repeatedly by several callers on simulated storage with faults, compared with an independent reference reader of the format",
 "C02": "deterministic simulation: seeded schedules of concurrent callers, plain and race-detector builds, results checked against a model",
 "C18": "deterministic simulation: seeded schedules of registrations and opens, history checked for linearizability",
 "C12": "deterministic simulation: seeded forward-only histories and schedules, storage fetches and decoder constructions counted",
 "C13": "deterministic simulation: seeded histories, schedules and decoder/storage faults, instance life cycles checked as invariants",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [], "not_applicable": [],
     "notes": "No hooks are committed in /repo: each check instruments a scratch copy of its working tree (see DESIGN.md). ./check.sh replay FILE repeats a violation."}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]}); continue
    m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "technique": TECH.get(i, "deterministic simulation with fault injection: seeded histories, schedules and storage faults checked against a model"),
        "level": "exploration", "level_note": NOTE})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); print(len(m["checks"]))
