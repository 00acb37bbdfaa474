"""Regenerates MANIFEST.json from properties.jsonl, vf/registry.py and vf/meta.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import meta, registry  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.MODULES:
        checks.append({"property": i, "quick_cmd": "./check.sh %s --tier quick" % i,
                       "thorough_cmd": "./check.sh %s --tier thorough" % i,
                       "technique": "property-based testing (Hypothesis, shrinking): " + meta.TECHNIQUE[i],
                       "level": "exploration", "level_note": meta.NOTES[i]})
    else:
        na.append({"property": i, "reason": meta.NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One runner (vf/run.py): 8 worker processes with different PYTHONHASHSEED, Hypothesis generation seeded from VERIF_SEED, "
              "shrunk failing case written to replays/ and replayed with ./check.sh PROP --replay FILE. No hooks in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
