#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []  # (property, check or None)

EXP = "exploration"
MC = "model_checking"
FAULT = "fault_enumeration"

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(),
         technique=None, level=EXP, note="", reason=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m) for n, m in state],
                     observe_at=list(observe), hook_needed=None)),
        dict(technique=technique, level=level, level_note=note), reason))

exec(open(os.path.join(V, "tools", "properties.py")).read())

have = {f[:-3].upper() for f in os.listdir(V + "/mc/core/src/bin")} | {"C18", "C27"}
if os.path.isdir(V + "/mc/tools/src/bin"):
    have |= {f[:-3].upper() for f in os.listdir(V + "/mc/tools/src/bin")}
checks, na = [], []
for p, c, reason in P:
    if reason or p["id"] not in have:
        na.append(dict(property=p["id"], reason=reason or "its check is still being built"))
        continue
    assert c["technique"], p["id"]
    checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}",
                       thorough_cmd=f"./check.sh {p['id']} --tier thorough", **c))
with open(V + "/properties.jsonl", "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(dict(version=1, setup_cmd="./check.sh --setup", checks=checks, not_applicable=na,
                   notes="Public API only: no hooks in /repo. properties.jsonl and this file are generated by tools/registry.py."), f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
