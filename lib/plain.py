"""Plans of the smaller specifications on their drivers (harness/plan.h)."""
import os, shutil, tempfile
from check import Driver, build, generated


def line(c):
    w = [c["op"], c.get("f") or "-", c.get("g") or "-"] + [int(c.get(k, 0)) for k in "kni"]
    for k in "xyz":
        x = c.get(k, [])
        w += [len(x), *map(int, x)]
    return " ".join(map(str, w))


class Exec:
    def __init__(self, path, timeout=30, env=None):
        self.dir = tempfile.mkdtemp(prefix="plan-")
        self.d = Driver(path, timeout, {"SCRATCH": self.dir, "ASAN_OPTIONS": "detect_leaks=0", **(env or {})})

    def __call__(self, plan):
        ev = []
        self.d("reset")
        for c in plan:
            r = self.d(line(c))
            if "ok" not in r or "bad" in r:
                ev.append({"op": "crash", "cmd": c, "how": {k: v for k, v in r.items() if k != "ok"}})
                return ev
            ev.append({**c, **r})
        return ev

    def close(self):
        self.d.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


def describe(spec):
    def f(run, k):
        e = run[k]
        how = f" ended the driver: {e['how']}" if e.get("op") == "crash" else ""
        return f"command {str(e.get('cmd') or e)[:700]}{how} is not what {spec}.tla allows after {[x.get('op') for x in run[:k]][-8:]}"
    return f


def run(chk, drv, folder, gen, trace, cfgs, quick, spec, kind="plain", **kw):
    ex = Exec(build(drv, kind))
    try:
        generated(chk, folder, gen, trace, ex, cfgs, quick, describe=describe(spec), **kw)
    finally:
        ex.close()
