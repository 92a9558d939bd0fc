#!/usr/bin/env python3
"""Single source for properties.jsonl, MANIFEST.json and sim/libs.txt. Run after editing: python3 tools/meta.py"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed
NA = []  # not applicable
SIMS = "deterministic simulation with fault injection"
def prop(id, lib, title, statement, over, text, why, files, mech, observe, note, state=None, level="exploration"):
    P.append(dict(id=id, lib=lib, note=note, level=level, line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}), observe_at=observe, hook_needed=None))))
def na(id, title, statement, over, text, why, files, mech, observe, reason):
    NA.append(dict(reason=reason, line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))))
exec(open(os.path.join(R, "tools", "properties.py")).read())
ids = [x["line"]["id"] for x in P + NA]; assert len(set(ids)) == len(ids)
for x in P + NA: assert len(x["line"]["title"]) <= 80, x["line"]["title"]
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for x in sorted(P + NA, key=lambda x: x["line"]["id"]): f.write(json.dumps(x["line"]) + "\n")
with open(os.path.join(R, "sim", "libs.txt"), "w") as f:
    for x in P: f.write(f'{x["line"]["id"]} {x["lib"]}\n')
m = dict(version=1, setup_cmd="./check --build", hooks=dict(guard="none", enable="No hooks were added to /repo: every seam is a library boundary (MPI, OpenMP runtime, libc file and clock calls, std::random_device, TRNG) or compiler instrumentation (-fsanitize=thread with our own runtime); the checks compile /repo's sources unchanged.", source_commits=[]),
    checks=[dict(property=x["line"]["id"], quick_cmd=f'./check {x["line"]["id"]} quick', thorough_cmd=f'./check {x["line"]["id"]} thorough', technique=SIMS, level=x["level"], level_note=x["note"]) for x in sorted(P, key=lambda x: x["line"]["id"])],
    not_applicable=[dict(property=x["line"]["id"], reason=x["reason"]) for x in NA])
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1); open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(P), "claimed,", len(NA), "not applicable")
