#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules, hash/heap seeds, child behaviour and fault sequences; the real binary runs under an LD_PRELOAD simulator"
P, NA = [], []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None, tech=TECH, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    if note is not None:
        CHECKS.append(dict(property=id, quick_cmd=f"./check {id} quick", thorough_cmd=f"./check {id} thorough",
                           technique=tech, level="exploration", level_note=note))
CHECKS = []
def na(id, reason): NA.append(dict(property=id, reason=reason))
exec(open(os.path.join(V, "tools", "table.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./check setup", "checks": CHECKS, "not_applicable": NA, "notes": NOTES}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
