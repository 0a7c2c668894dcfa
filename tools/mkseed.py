#!/usr/bin/env python3
"""Create and confirm planted bugs.

mkseed.py make SPEC.py      SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo)]
mkseed.py verify [ID...]    re-confirm: applies, demo 0 clean / nonzero patched, stable tests pass, check catches it
"""

import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh(["git", "-C", REPO, "checkout", "--", "."])


def demo(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO, timeout=300, env=env)
    return r.returncode, r.stdout


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        assert sh(["git", "-C", REPO, "status", "--porcelain"]).stdout == "", "repo dirty"
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p, newline="").read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w", newline="").write(t.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "-C", REPO, "diff"]).stdout)
        finally:
            clean()
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(
            "#!/bin/bash\n# run with cwd /repo\nPY=/opt/venv/bin/python\n[ -x \"$PY\" ] || PY=python3\n"
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec "$PY" -B "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        verify(s["id"])


def verify(i, check=True):
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert sh(["git", "-C", REPO, "status", "--porcelain"]).stdout == "", "repo dirty"
    rc0, out0 = demo(d)
    r = sh(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stdout)
        return
    try:
        rc1, out1 = demo(d)
        t = sh(["bash", os.path.join(ROOT, "tools", "t.sh")]).stdout.strip().splitlines()[-1]
        c = sh([os.path.join(ROOT, "run.sh"), prop], cwd=ROOT)
        caught = c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout
    finally:
        clean()
    ok = rc0 == 0 and rc1 != 0 and t == "stable tests broken: 0 []"
    print(f"{i} {prop}: demo {rc0}/{rc1} {t} -> {'VALID' if ok else 'INVALID'}; check rc={c.returncode} "
          f"{'CAUGHT' if caught else 'MISSED'}", flush=True)
    rp = os.path.join(ROOT, "tools", "seed_results.json")
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    res[i] = "caught" if caught else "missed"
    json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
    if not ok:
        print(out0[-800:], out1[-800:])
    if not caught:
        print(c.stdout[-500:])


if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    for i in sys.argv[2:] or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        verify(i)
