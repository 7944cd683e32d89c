#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, claim=True, note="", observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe or [], "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"prop": {"id": id, "title": title, "statement": statement,
                       "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors},
              "claim": claim, "note": note})

exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
        f.write(json.dumps(p["prop"]) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [],
       "not_applicable": [{"property": i, "reason": r} for i, r in NA],
       "notes": "No hooks in /repo: every source of nondeterminism is reached by linking copies of the library with "
                "--wrap symbols and a simulated mpi.h. Known findings and repairs: known-findings."}
for p in P:
    if not p["claim"]:
        continue
    i = p["prop"]["id"]
    man["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                          "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                          "evidence_file": "evidence/%s.json" % i,
                          "technique": "deterministic simulation with fault injection (seeded search over programs, schedules and faults)",
                          "level": "exploration",
                          "level_note": p["note"] or "Sampled, not exhaustive: no violation in the explored runs. Trusts the "
                          "reference model, the legality rules for generated programs, and the simulated MPI/socket layers."})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
