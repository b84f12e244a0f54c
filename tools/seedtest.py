#!/usr/bin/env python3
"""usage: seedtest.py [--nocheck] ID...   For each planted bug: demo on the clean tree, then with the patch build, stable tests, demo, the property's quick check."""
import json, os, subprocess, sys
S = "/verif/seeded"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def run(c, cwd="/repo", t=900):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
def build(): return run("bash /opt/vp/build.sh").returncode
args = [a for a in sys.argv[1:] if a != "--nocheck"]
nocheck = "--nocheck" in sys.argv
assert not run("git status --porcelain --untracked-files=no").stdout
for b in args or sorted(os.listdir(S)):
    d = f"{S}/{b}"; meta = json.load(open(d + "/meta.json"))
    build(); clean = run(f"bash {d}/demo.sh", t=300)
    a = run(f"git apply {d}/patch.diff")
    try:
        if a.returncode: print(b, "patch fails", a.stdout); continue
        rc = build()
        run("bash /opt/vp/test.sh /tmp/seed_out.json")
        out = json.load(open("/tmp/seed_out.json"))
        passed = set(out.get("passed", [])) if "passed" in out else {k for k, v in out.items() if v in (True, "pass", "passed")}
        lost = stable - passed
        dem = run(f"bash {d}/demo.sh", t=300)
        line = f"{b} [{meta['property']}] clean demo {clean.returncode}, build {rc}, lost tests {sorted(lost)[:3]}, demo with patch {dem.returncode}"
        if not nocheck:
            c = run(f"./check {meta['property']} quick", cwd="/verif")
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            line += f", check {c.returncode} {'CAUGHT' if c.returncode == 1 and v else 'MISSED'}"
        print(line, flush=True)
        if clean.returncode or not dem.returncode: print(clean.stdout[-300:], dem.stdout[-300:])
    finally:
        run("git checkout -- .")
build()
