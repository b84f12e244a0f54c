#!/usr/bin/env python3
"""usage: plant.py ID PROPERTY FILE  (then on stdin: a JSON object {old, new, needs, what, demo, count?})  - makes /verif/seeded/ID from an edit of /repo."""
import json, os, shutil, subprocess, sys
id, prop = sys.argv[1:3]
j = json.load(sys.stdin)
d = f"/verif/seeded/{id}"
os.makedirs(d, exist_ok=True)
for f, old, new, nth in j["edits"]:
    p = "/repo/" + f
    s = open(p, newline="", encoding="latin1").read()
    if "\r\n" in s and "\r\n" not in old: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert old in s, (f, old)
    parts = s.split(old)
    assert nth < len(parts) - 1 and (nth >= 0 or len(parts) == 2), (f, len(parts) - 1)
    nth = max(nth, 0)
    s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(p, "w", newline="", encoding="latin1").write(s)
open(d + "/patch.diff", "wb").write(subprocess.run(["git", "diff"], cwd="/repo", stdout=subprocess.PIPE).stdout)
subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/repo")
json.dump({"property": prop, "needs": j["needs"], "what_it_breaks": j["what"]}, open(d + "/meta.json", "w"), indent=1)
kit = "/verif/tools/seedkit/"
for f in ("compat.h", "demo.sh"): shutil.copy(kit + f, d)
if '"msers.h"' in j["demo"]: shutil.copy(kit + "msers.h", d)
open(d + "/demo.cpp", "w").write(j["demo"])
