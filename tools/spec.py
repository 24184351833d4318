#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from one description."""
import json, os, importlib, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE, COMMON

props, checks, mchecks = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    })
    if "na" in p:
        continue
    checks.append({
        "property": p["id"], "pkg": p["pkg"], "harness": p["harness"],
        "bounds": p["bounds"], "assumptions": p.get("assumptions", []),
        "quick_s": p.get("quick_s", 300), "thorough_s": p.get("thorough_s", 3000),
    })
    mchecks.append({
        "property": p["id"],
        "quick_cmd": "./check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
        "technique": "symbolic execution of the compiled Go SSA of the real code, decided by Z3 (bit-vectors), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Bounded: every value within: " + p["bounds"] + " " + COMMON,
    })
selftest = json.load(open(os.path.join(V, "tools", "selftest.json")))
na = [{"property": p["id"], "reason": p["na"]} for p in PROPS if "na" in p] + NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
def dump(n, d):
    with open(os.path.join(V, n), "w") as f:
        json.dump(d, f, indent=1, ensure_ascii=False)
        f.write("\n")
dump("checks.json", selftest + checks)
dump("MANIFEST.json", {
    "version": 1, "setup_cmd": "./check setup", "checks": mchecks, "not_applicable": na,
    "notes": "Generated by tools/spec.py from tools/props.py. Engine: /verif/engine. See DESIGN.md.",
})

def section(text, tag, body):
    a, b = f"<!-- {tag} -->", f"<!-- /{tag} -->"
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + text[j:]

d = open(os.path.join(V, "DESIGN.md")).read()
body = ""
for p in PROPS:
    body += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    if "na" in p:
        body += f"Not applicable: {p['na']}\n\n"
        continue
    body += f"Decided by `harness/{p['pkg']}`: {', '.join(p['harness'])}. " + (p.get("how", "") + " " if p.get("how") else "") + f"Bounds: {p['bounds']}\n"
    if p.get("assumptions"):
        body += "Assumptions: " + "; ".join(p["assumptions"]) + ".\n"
    body += "\n"
d = section(d, "PROPERTIES", "\n## Properties\n\n" + body)
rows = "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows += f"| {i} | {m['property']} | {m['what_it_breaks']} | {caught.get(i, '?')} |\n"
d = section(d, "SEEDED", rows)
open(os.path.join(V, "DESIGN.md"), "w").write(d)
