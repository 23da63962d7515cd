#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}
T = "solver-based bounded model checking (CBMC/SAT) of the real source"


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None, level_note="", technique=T):
    P.append(dict(d=dict(id=id, title=title, statement=" ".join(statement.split()),
                         quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                         anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                      observe_at=observe or [], state=state or [], hook_needed=hook)),
                  note=" ".join(level_note.split()), tech=technique))


def na(id, reason):
    NA[id] = " ".join(reason.split())


exec(open(os.path.join(V, "lib", "props.py")).read())

ids = [x["d"]["id"] for x in P]
assert len(ids) == len(set(ids)), "duplicate id"
with open(f"{V}/properties.jsonl", "w") as fp:
    for x in P:
        assert len(x["d"]["title"]) <= 80, x["d"]["title"]
        fp.write(json.dumps(x["d"]) + "\n")
sys.path.insert(0, f"{V}/lib")
import run
have = {j.prop for j in run.load_jobs()}
checks = []
for x in P:
    i = x["d"]["id"]
    if i in NA:
        continue
    if i not in have:
        NA[i] = "no check yet (work in progress)"
        continue
    checks.append(dict(property=i, quick_cmd=f"python3 lib/run.py {i} --tier quick",
                       thorough_cmd=f"python3 lib/run.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=x["tech"], level="other",
                       level_note=x["note"] or "Bounded: holds for all values within the bounds listed per job in the evidence file; nothing is claimed outside them."))
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="Each check compiles harness/*.c together with /repo's current sources using goto-cc and decides every assertion with CBMC; "
               "counterexamples are replayed natively before being reported. No hooks are added to /repo.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(P), "properties;", len(checks), "claimed;", len(NA), "not applicable:", " ".join(sorted(NA)))
