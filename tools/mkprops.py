"""Writes /verif/properties.jsonl from the table below (kept as source so that edits stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["src/evotorch/" + f for f in files], "mechanism": [{"name": n, "where": "src/evotorch/" + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "src/evotorch/" + w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


exec(open(os.path.join(os.path.dirname(__file__), "props_table.py")).read())

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
