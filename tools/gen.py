#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand, results committed)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

L = "src/lib/sup/oac-tree/"
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None, tech="", note=""):
    assert len(title) <= 80, (pid, len(title))
    d = {"id": pid, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [f if f.startswith("src/") else L + f for f in files],
                     "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((d, tech, note))


exec(open(V + "/tools/properties_table.py").read())

PENDING = "no check has been built for it yet"
NA = {}
try:
    exec(open(V + "/tools/not_applicable.py").read())
except OSError:
    pass

with open(V + "/properties.jsonl", "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, tech, note in P:
    pid = d["id"]
    if pid in CHECKS and pid not in NA:
        checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": tech,
                       "level": "exploration", "level_note": note})
    else:
        na.append({"property": pid, "reason": NA.get(pid, PENDING)})
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "Runtime monitoring and sanitizers only. Every check compiles /repo's current working tree (the whole "
              "library against /verif/standin, or its dependency-free core) with ASan+UBSan and with TSan, runs its "
              "monitors and rewrites its evidence file. No hooks were needed in /repo."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
ids = [d["id"] for d, _, _ in P]
assert len(ids) == len(set(ids))
print(len(P), "properties,", len(checks), "claimed")
