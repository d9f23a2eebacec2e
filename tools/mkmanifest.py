"""Write MANIFEST.json from the checks present (run after adding a check)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
checks = []
missing = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    try:
        m = importlib.import_module(f"vp.checks.{p['id'].lower()}")
    except ModuleNotFoundError:
        missing.append(p["id"])
        continue
    checks.append(
        dict(
            property=p["id"],
            quick_cmd=f"bash run.sh {p['id']} quick",
            thorough_cmd=f"bash run.sh {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=m.TECHNIQUE,
            level=m.LEVEL,
            level_note=m.NOTE,
        )
    )
out = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=checks,
    not_applicable=[
        dict(property=p, reason="check not built yet") for p in missing
    ],
    notes="All checks are runtime monitors: they run the real code of /repo/src under generated "
    "workloads and injected faults; oracles judge what was observed. /repo is pure Python, so "
    "the build is an import from the working tree, and no source hooks are needed: monitors "
    "wrap public methods of the code at run time.",
)
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks; missing", missing)
