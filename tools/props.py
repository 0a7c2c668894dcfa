#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "edk2toollib/uefi/edk2/"
T = "edk2toollib/"
PROPS = []
CLAIM = {}


def P(pid, title, statement, over, qtext, why, files, mech, note, state=(), observe=(), technique=None, claimed=True,
      reason=None):
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m} for n, m in state],
                    "observe_at": list(observe), "hook_needed": None}})
    CLAIM[pid] = (claimed and os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")), note,
                  technique or "bounded exhaustive exploration of the real code against a reference model", reason)


exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    for f in p["anchors"]["files"]:
        assert os.path.exists(os.path.join(os.environ.get("VERIF_REPO", "/repo"), f)), (p["id"], f)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in PROPS:
    ok, note, tech, reason = CLAIM[p["id"]]
    if ok:
        man["checks"].append({
            "property": p["id"], "quick_cmd": f"./run.sh {p['id']} --tier quick",
            "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
            "technique": tech, "level": "model_checking", "level_note": note})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": reason or "check not built yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "claimed")
