"""Plans of the specification Mat on the real mt_mat."""
import os, shutil, tempfile
from check import Driver

LISTS = ("a", "b", "sz", "v", "ss")


def line(c):
    w = [c["op"], c.get("f") or "-", c.get("g") or "-", c.get("o") or "-", c.get("dep") or "-"]
    w += [int(c.get(k, 0)) for k in ("d", "s", "t", "k", "n", "i", "ch", "own", "auto")]
    for k in LISTS:
        x = c.get(k, [])
        w += [len(x), *x]
    return " ".join(map(str, w))


class Exec:
    def __init__(self, path, timeout=20):
        self.dir = tempfile.mkdtemp(prefix="mat-")
        self.d = Driver(path, timeout, {"SCRATCH": self.dir, "ASAN_OPTIONS": "detect_leaks=0"})

    def __call__(self, plan):
        ev = []
        self.d("reset")
        for c in plan:
            r = self.d(line(c))
            if "obs" not in r or "bad" in r:
                ev.append({"op": "crash", "cmd": c, "how": {k: v for k, v in r.items() if k != "obs"}})
                return ev
            ev.append({**c, **r})
        return ev

    def close(self):
        self.d.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


def describe(run, k):
    e = run[k]
    show = {x: y for x, y in (e.get("cmd") or e).items() if x != "obs"}
    pre = [[x.get("op"), x.get("f"), x.get("d"), x.get("s")] for x in run[max(0, k - 6):k]]
    how = f" ended the driver: {e['how']}" if e.get("op") == "crash" else ""
    return f"after {pre} the command {show}{how} is not what Mat.tla does; observed {str(e.get('obs'))[:500]}"
