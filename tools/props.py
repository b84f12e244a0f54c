#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (kept in one place so that the two stay in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None}))
    P[-1]["_note"], P[-1]["_tech"] = note, technique or "TLA+ specification checked with TLC; traces of the real code validated against it"


IMG = "basicimg is compiled but no test links or runs it; the stable tests cover basiclog, basicsys and basicmath only."
V = ["basicimg/src/img_fast_mser_v1.cpp", "basicimg/src/img_fast_mser_v2.cpp", "basicimg/src/img_linked_linear_mser.cpp", "basicimg/src/img_ms_mser.cpp", "basicimg/src/img_mser_base.cpp"]
exec(open(os.path.join(ROOT, "tools", "props_mser.py")).read())
for f in ("props_math.py", "props_sys.py", "props_img.py"):
    p = os.path.join(ROOT, "tools", f)
    if os.path.exists(p):
        exec(open(p).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "python3 harness/configure.py _build/plain && ninja -C _build/plain",
    "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                "technique": p["_tech"], "level": "model_checking", "level_note": p["_note"]} for p in P if p["id"] not in {n["property"] for n in NA}],
    "not_applicable": NA,
    "notes": "One entry point, ./check <property> [quick|thorough]. No hooks in /repo are needed: the public interfaces expose the abstract state. Known findings: known-findings.txt."},
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
