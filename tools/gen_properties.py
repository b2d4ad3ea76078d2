#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (the table is the source of truth)."""
import json, os
P = []
B = "src/tight_binding_redweasel/"
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[B + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
exec(open(os.path.join(os.path.dirname(__file__), "properties_table.py"), encoding="utf-8").read())
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w", encoding="utf-8") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
