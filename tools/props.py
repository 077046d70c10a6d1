#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                   why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                                **({"observe_at": observe} if observe else {}))), technique, note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                    why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), reason))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted([p for p, *_ in P] + [p for p, _ in NA], key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks = []
for p, tech, note in sorted(P, key=lambda x: x[0]["id"]):
    assert os.path.exists(os.path.join(V, "sa", "props", p["id"].lower() + ".py")), p["id"]
    c = "python3 check.py %s" % p["id"]
    checks.append(dict(property=p["id"], quick_cmd=c + " --tier quick", thorough_cmd=c + " --tier thorough",
                       evidence_file="evidence/%s.json" % p["id"], technique=tech, level="other", level_note=note))
m = dict(version=1, setup_cmd="python3 sa/facts.py", checks=checks,
         not_applicable=[dict(property=p["id"], reason=r) for p, r in NA],
         notes="Every check analyses the MIR of /repo's current working tree (built by driver/main.rs, a rustc "
               "driver on the pinned nightly); nothing of /repo is executed.  See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
