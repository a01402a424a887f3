#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so the two stay in step."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms[(name, where)], technique, level, level_note | None + reason
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, level=level))


exec(open(os.path.join(here, "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 vlib/facts.py",
       "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']}",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["technique"]],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
       "notes": "All checks are static: a rustc driver (driver/main.rs) extracts MIR and type facts from /repo's current tree; check.py applies the rule of one property. Nothing of the crate is executed. No hooks are needed in /repo."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")
assert len({p["id"] for p in P}) == len(P)
for p in P: assert len(p["title"]) <= 80, p["id"]; assert bool(p["technique"]) != bool(p["na"]), p["id"]
print(len(P), "properties,", len(man["checks"]), "checks")
