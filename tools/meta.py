#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []

def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append((d, technique, note))

def na(id, title, statement, over, text, why, files, mech, reason):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    NA.append((d, reason))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in P: f.write(json.dumps(d) + "\n")
    for d, _ in NA: f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="./build.sh",
  checks=[dict(property=d["id"], quick_cmd="./check.sh %s quick" % d["id"], thorough_cmd="./check.sh %s thorough" % d["id"],
               technique=t, level="other", level_note=n) for d, t, n in P],
  not_applicable=[dict(property=d["id"], reason=r) for d, r in NA],
  notes="All checks are one static analyser, /verif/checker: path-sensitive abstract interpretation of the SSA form of /repo's current source, with per-property rules. Nothing of /repo is executed and no solver is used. No hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "claimed", len(NA), "not applicable")
