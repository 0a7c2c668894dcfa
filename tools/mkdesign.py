#!/usr/bin/env python3
"""Fill DESIGN.md from tools/design_template.md, properties, evidence bounds and seeded bugs."""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
t = open(os.path.join(R, "tools", "design_template.md")).read()
props = [json.loads(x) for x in open(os.path.join(R, "properties.jsonl"))]
man = json.load(open(os.path.join(R, "MANIFEST.json")))
chk = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
out = ["## Properties and how each is decided", ""]
for p in props:
    out.append(f"### {p['id']} {p['title']}")
    out.append("")
    out.append(p["statement"])
    out.append("")
    if p["id"] in chk:
        out.append(f"*Decided by*: {chk[p['id']]['technique']}. {chk[p['id']]['level_note']}")
        out.append("")
        m = importlib.import_module("checks." + p["id"].lower())
        for s in m.SUITES:
            b = s.bound if isinstance(s.bound, str) else "; ".join(f"{k}: {v}" for k, v in s.bound.items())
            out.append(f"* suite `{s.name}`: {s.what} — {b}")
        for a in getattr(m, "ASSUMPTIONS", []):
            out.append(f"* assumption: {a}")
        out.append(f"* beyond the tests: {p['why_tests_cant']}")
    else:
        out.append(f"*Not applicable*: {na[p['id']]}")
    out.append("")
f = [l.strip() for l in open(os.path.join(R, "known_findings.jsonl")) if l.strip() and not l.startswith("#")]
find = []
for l in f:
    if l.startswith("fixed:"):
        find.append("* " + l)
    else:
        d = json.loads(l)
        find.append(f"* KNOWN-FINDING property={d['property']}: {d['what']}")
rs = []
for p in props:
    pass
sd = ["| bug | property | breaks | needs | check |", "|---|---|---|---|---|"]
res = {}
rp = os.path.join(R, "tools", "seed_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
for i in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", i, "meta.json")))
    sd.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(i, '?')} |")
ex = os.path.join(R, "tools", "design_restrictions.md")
restr = open(ex).read().strip() if os.path.exists(ex) else ""
t = (t.replace("@@PROPS@@", "\n".join(out)).replace("@@FINDINGS@@", "\n".join(find))
     .replace("@@RESTR@@", restr).replace("@@SEEDS@@", "\n".join(sd)))
open(os.path.join(R, "DESIGN.md"), "w").write(t)
