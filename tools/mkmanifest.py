"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
from manifest_table import NOTES  # noqa: E402

checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES and os.path.exists(os.path.join(HERE, "harness", "drivers", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json", "technique": NOTES[i][0], "level": "model_checking",
            "level_note": NOTES[i][1],
        })
    else:
        na.append({"property": i, "reason": "the specification module for this property is not finished yet"})
m = {
    "version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
    "notes": "TLA+ specifications in specs/, checked with TLC; recordings of the real code (imported from /repo/src,"
    " no build step and no hooks needed) are validated against trace modules. See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
