#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: every property is claimed by one check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
MODE = {
    "C01": "error, short-write, disk-full, allocation and crash faults at seeded calls; a reported success is judged against the complete image",
    "C02": "short transfers and EINTR at every read and write; the image must equal the one of undisturbed I/O",
    "C03": "process death at seeded calls of the link; what is on the simulated disk afterwards must not be runnable unless complete",
    "C04": "error, crash and disk-full faults at seeded calls; every other file of the simulated disk is compared",
    "C05": "seeded hash keys, heap layouts and junk, clocks, pids, partial transfers and environments; images compared byte for byte",
    "C06": "adversarial scripts, archives and damaged inputs under bounded simulated steps; every run must end",
    "C21": "torn, truncated, foreign and stale inputs; the link must fail, or give the image of the intact inputs",
    "C22": "the same link with logging off, on, and with a failing stderr; images and exit statuses compared",
    "C25": "an input is renamed over at a seeded system call of the link; the image must be that of one version",
    "C26": "two links in one simulated file system, switched at seeded system calls; each must end as it does alone",
    "C27": "respelled, spoiled and overridden command lines under seeded schedules; results compared with the plain command line and with the documented meaning",
    "C23": "relinking over earlier, longer, read-only or half-written outputs, with faults in between; image equals that of a fresh link",
}
IMG = "the finished image is loaded by a reference kernel loader and dynamic loader and compared with a reference link model"
checks = []
for p in props:
    i = p["id"]
    how = MODE.get(i) or "seeded link jobs under seeded schedules and benign faults; " + IMG
    checks.append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: " + how,
        "level": "exploration",
        "level_note": "Seeded search over generated inputs, schedules and fault plans; the real dld binary runs on a simulated libc boundary. A clean batch is evidence for the explored seeds, not a proof.",
    })
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": []}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
