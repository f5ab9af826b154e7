#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, MANIFEST.json and checks.json.
Run by hand after editing; the checks only read checks.json."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, text, why, files, mech, observe, pkg, rule, tech, note, over=("inputs",), assumptions=(), **cfg):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech,
                  observe=observe, pkg=pkg, rule=rule, tech=tech, note=note, assumptions=list(assumptions), cfg=cfg))

exec(open(os.path.join(VERIF, "tools", "properties.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": False},
        }, ensure_ascii=False) + "\n")
checks = {}
man = {"version": 1, "setup_cmd": "./run.py --setup", "checks": [], "not_applicable": [], "notes":
       "Property-based tests (pgregory.net/rapid) in harness/, driven by run.py; every check rebuilds from /repo's working tree. No hooks in /repo."}
for p in P:
    checks[p["id"]] = dict({"pkg": p["pkg"], "rule": p["rule"], "assumptions": p["assumptions"]}, **p["cfg"])
    man["checks"].append({
        "property": p["id"], "quick_cmd": "./run.py %s quick" % p["id"], "thorough_cmd": "./run.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["cfg"].get("level", "exploration"), "level_note": p["note"]})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
with open(os.path.join(VERIF, "checks.json"), "w") as f:
    json.dump({"checks": checks}, f, indent=1, ensure_ascii=False)
    f.write("\n")
