#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "C06": "stateful property-based testing (proptest): warm instance, cold second instance over a snapshot and reference model compared",
 "C09": "property-based testing (proptest): random rounds repeated, page counts and structural ownership audit",
 "C10": "property-based differential testing (proptest): one generated history on all back ends, transcripts compared",
 "C17": "stateful property-based testing (proptest): two file systems and foreign memories interleaved, models and guard patterns",
 "C18": "property-based robustness testing (proptest): extreme arguments, panics caught, model and audits after",
 "C20": "property-based testing (proptest): generated images in the old layouts, then generated histories against the model",
 "C27": "property-based testing (proptest): generated histories, damaged or mis-ranged images opened, refusal and full audits afterwards",
 "C26": "property-based testing (proptest): round trips, order laws and bounds over generated values; code tables",
}
NOTE = "Explored, not exhausted: random histories, seeded and reproducible, compared call by call with an independent reference model and by full audits of the state; bounds and case counts in the evidence file."
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} --tier quick",
        "thorough_cmd": f"./check.sh {i} --tier thorough",
        "technique": TECH.get(i, "stateful model-based property testing (proptest): generated histories against a reference model, shrunk to a minimal replay"),
        "level": "exploration",
        "level_note": NOTE,
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
