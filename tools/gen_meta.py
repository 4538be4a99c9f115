#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when the table changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, technique, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None),
                  _note=note, _tech=technique))


exec(open(os.path.join(V, "tools", "props_table.py")).read())

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = dict(version=1, setup_cmd="python3 tools/setup.py",
           checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                        thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                        evidence_file=f"evidence/{p['id']}.json", technique=p["_tech"], level="model_checking",
                        level_note=p["_note"]) for p in P if p["id"] not in [n["property"] for n in NOT_APPLICABLE]],
           not_applicable=NOT_APPLICABLE,
           notes="No hooks in /repo: the drivers use the libraries' public interfaces. Known findings and fixed defects: known_findings.jsonl.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
