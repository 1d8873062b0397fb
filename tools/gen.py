#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(glob.glob(f"{root}/tools/props/*.json")):
    props += json.load(open(f))
props.sort(key=lambda p: p["id"])
with open(f"{root}/properties.jsonl", "w") as o:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"], "anchors": anchors,
        }) + "\n")
checks, na = [], []
for p in props:
    if "not_applicable" in p:
        na.append({"property": p["id"], "reason": p["not_applicable"]})
        continue
    checks.append({
        "property": p["id"], "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
        "technique": p["technique"], "level": p.get("level", "model_checking"),
        "level_note": p["note"],
    })
json.dump({
    "version": 1, "setup_cmd": "./check.sh --setup",
    "hooks": {"guard": "none: the checks use only public interfaces", "enable": "nothing to enable", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "See DESIGN.md. known-findings.txt lists repaired defects and open findings.",
}, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

caught = {}
if os.path.exists(f"{root}/tools/caught.json"):
    caught = json.load(open(f"{root}/tools/caught.json"))
with open(f"{root}/DESIGN.md", "w") as o:
    o.write(open(f"{root}/tools/design.head.md").read().rstrip() + "\n\n## The properties, one by one\n")
    for p in props:
        o.write(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n")
        if "not_applicable" in p:
            o.write(f"Not applicable: {p['not_applicable']}\n")
            continue
        o.write(f"- Deciding step: {p['technique']}.\n- Explored: {p['note']}\n- Oracle and cost: {p['oracle']}\n- Beyond the tests: {p['why']}\n")
        o.write("- Anchors: " + ", ".join(p["files"]) + "\n")
    o.write("\n## Planted bugs and what catches them\n\n| bug | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n")
    for f in sorted(glob.glob(f"{root}/seeded/*/meta.json")):
        m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
        o.write(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, '(not run yet)')} |\n")
