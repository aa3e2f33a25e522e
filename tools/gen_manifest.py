#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl") if l.strip()]
NOTE = {
    "P13": "fault/environment enumeration: all cut points, piece sizes, partitions and interruption patterns of a corpus within stated bounds",
    "P14": "all failure points of a corpus, several error kinds, all placements of undecodable bytes within stated bounds",
    "P16": "all interleavings of reader requests (2 and 3 readers), all schedules of threads switching at reads, nested reads; all schedules with up to 1-3 preemptions at the atomic and shared accesses inside the library (instrumented build, controlled scheduler)",
    "P22": "every sequence of requests on sources that deliver piece by piece, the source checking each read against how far it may be read",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i} quick",
        "thorough_cmd": f"./check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "stateless explicit-state model checking of the real code: exhaustive enumeration of all bounded choice sequences, every execution compared with an independent reference model",
        "level": "model_checking",
        "level_note": NOTE.get(i, "every input of the stated finite spaces is run on the real library through its public API and compared with the reference reader") + "; nothing is sampled; inputs outside the stated bounds are not covered",
    })
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": []}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
