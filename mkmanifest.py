"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {}
NOTES = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
  p = json.loads(line)
  i = p["id"]
  if i in NA:
    na.append({"property": i, "reason": NA[i]})
    continue
  checks.append({
      "property": i,
      "quick_cmd": f"./check.sh {i} quick",
      "thorough_cmd": f"./check.sh {i} thorough",
      "evidence_file": f"evidence/{i}.json",
      "technique": "deterministic simulation with fault injection (seeded "
                   "search over workloads, schedules, crashes and I/O faults; "
                   "in-memory reference model)",
      "level": "exploration",
      "level_note": "seeded search, not exhaustive: shows absence of "
                    "violations only on the explored seeds; process crash (not "
                    "power loss) model; commit steps of concurrent writers "
                    "serialised as the code documents" + (
                        "; Ray replaced by a scheduler-driven stand-in"
                        if i in ("C13", "C14", "C15", "C16", "C17") else ""),
  })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
