#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from the list below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification of the real Go source (vcg: weakest-precondition style obligations from /repo, discharged by z3 and cvc5); bounded replay of the executable contract for failing inputs"
P = []
def prop(id, title, statement, over, text, why, files, mech, harness, note, assumptions=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, harness=harness, note=note, assumptions=list(assumptions)))

exec(open(os.path.join(V, "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "python3 /verif/check.py " + p["id"],
    "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py %s --thorough" % p["id"],
    "technique": TECH, "level": "proof", "level_note": p["note"]} for p in P if p["harness"] is not None]
na = [{"property": p["id"], "reason": p["note"]} for p in P if p["harness"] is None]
json.dump({"version": 1, "setup_cmd": "python3 /verif/check.py --build", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump({p["id"]: {"harness": p["harness"], "assumptions": p["assumptions"]} for p in P if p["harness"] is not None}, open(os.path.join(V, "checks.json"), "w"), indent=1)
