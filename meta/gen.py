#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (run by hand after edits)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, tech=tech, note=note, level=level))

exec(open(os.path.join(V, "meta", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         state=[dict(name=n, meaning=m, where=w) for n, m, w in p["state"]],
                         observe_at=list(p["observe"]), hook_needed=None))) + "\n")
CONF = {}
exec(open(os.path.join(V, "conf.py")).read())
checks, na = [], []
for p in P:
    if p["id"] not in CONF:
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    if p["tech"] is None:
        na.append(dict(property=p["id"], reason=p["note"] or "check not built yet"))
        continue
    checks.append(dict(property=p["id"],
                       quick_cmd=f"python3 check.py {p['id']} quick",
                       thorough_cmd=f"python3 check.py {p['id']} thorough",
                       technique=p["tech"], level=p["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="Property-based testing with a choice-sequence engine (harness/core.*): generated documents, call histories, files and faults against reference models; failures are shrunk and written as replay files (python3 check.py --replay FILE).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
