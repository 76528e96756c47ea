#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 tools/registry.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe or [], technique=technique, note=note, state=state))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

assert len({p["id"] for p in PROPS}) == len(PROPS)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda q: q["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p["observe"], hook_needed=None))
        f.write(json.dumps(d) + "\n")
cfg = json.load(open(os.path.join(V, "harness", "checks.json")))
na_ids = {n["property"] for n in NA}
checks = []
for p in sorted(PROPS, key=lambda q: q["id"]):
    if p["id"] in na_ids:
        continue
    assert p["id"] in cfg, p["id"]
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                       technique=p["technique"], level="exploration", level_note=p["note"] or "seeded generated-input search; holds on everything explored, bounds in DESIGN.md"))
json.dump(dict(version=1, setup_cmd="python3 check.py --selftest",
               hooks=dict(guard="none", enable="the checks need no hooks in /repo", source_commits=[]),
               checks=checks, not_applicable=NA), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
