"""Plans of MSER sessions, their execution against the real classes and the events the trace specification judges."""
import random
from check import Driver

# A share is sent to the code as a decimal and to the specification as num/den.
def share(n, d):
    return (n, d)


class Exec:
    def __init__(self, path, timeout=60, threads=None):
        self.d = Driver(path, timeout, {"OMP_NUM_THREADS": str(threads)} if threads else None)

    def __call__(self, plan):
        ev = []
        self.d("reset")
        for c in plan:
            op = c["op"]
            e = dict(c)
            if op == "new":
                r = self.d(f"new {c['h']} {c['alg']}")
            elif op in ("del", "clear"):
                r = self.d(f"{op} {c['h']}")
            elif op == "set":
                r = self.d(f"set {c['h']} {c['k']} {self._value(c['k'], c['v'])}")
            elif op == "ext":
                m = c["mask"]
                mt = {"none": "none", "image": "image" + m.get("lay", "") + " " + " ".join(map(str, m.get("px", []))), "value": f"value {m.get('v')}"}[m["kind"]]
                r = self.d(f"ext {c['h']} {c['r']} {c['R']} {c['C']} {c['layout']} {mt} " + " ".join(map(str, c["px"])))
            elif op == "res":
                r = self.d(f"res {c['r']}")
            elif op in ("copy", "assign"):
                r = self.d(f"{op} {c['a']} {c['b']}")
            elif op == "drop":
                r = self.d(f"drop {c['r']}")
            elif op == "renderall":
                r = self.d(f"res {c['r']}")
                if "out" in r:
                    for ch in (0, 1):
                        ms = r["out"][ch]
                        for i in sorted(range(len(ms)), key=lambda i: (-ms[i]["s"], i))[:c["n"]]:
                            x = self.d(f"render {c['r']} {ch} {i}")
                            ev.append({"op": "render", "r": c["r"], "ch": ch + 1, "m": ms[i], "C": c["C"], **x} if "px" in x
                                      else {"op": "crash", "cmd": f"render {ch} {i}", "how": x})
                    continue
            if not ("ok" in r or "out" in r):
                ev.append({"op": "crash", "cmd": op, "how": r})
                return ev
            e.update({k: v for k, v in r.items() if k != "ok"})
            ev.append(e)
        return ev

    @staticmethod
    def _value(k, v):
        if k in ("dup", "stable", "nms"):
            return repr(v[0] / v[1])
        if k == "size":
            return f"{v[0]} {v[1] / v[2]!r}"
        return " ".join(map(str, v))


GRID = {"v1": {1: (1, 1), 2: (1, 2), 4: (2, 2), 8: (2, 4), 16: (4, 4), 32: (4, 8)}, "v2": {1: (1, 1), 4: (2, 2), 32: (4, 8)},
        "ll": {4: (1, 1)}, "ms": {4: (1, 1)}}


def image(rng, R, C, kind=None, levels=None):
    """A gray image of one of several kinds, chosen for the shapes of component trees they give."""
    n = R * C
    L = levels or rng.choice([2, 2, 3, 3, 4, 5, 8, 16, 64, 256])
    base = rng.choice([0, 256 - L, rng.randint(0, 256 - L)])
    kind = kind or rng.choice(["noise", "noise", "ramp", "blobs", "rings", "stripes", "checker", "walk", "islands", "flat"])
    if kind == "noise":
        px = [rng.randrange(L) for _ in range(n)]
    elif kind == "ramp":
        a, b = rng.uniform(-1, 1), rng.uniform(-1, 1)
        v = [a * (i % C) + b * (i // C) for i in range(n)]
        lo, hi = min(v), max(v)
        px = [int((x - lo) / ((hi - lo) or 1) * (L - 1)) for x in v]
    elif kind == "blobs":
        cs = [(rng.uniform(0, R), rng.uniform(0, C), rng.uniform(.5, max(R, C) / 2), rng.choice([-1, 1])) for _ in range(rng.randint(1, 5))]
        v = [sum(s * 2.718 ** (-((i // C - y) ** 2 + (i % C - x) ** 2) / (r * r)) for y, x, r, s in cs) for i in range(n)]
        lo, hi = min(v), max(v)
        px = [int((x - lo) / ((hi - lo) or 1) * (L - 1) + .5) for x in v]
    elif kind == "rings":
        s = rng.randint(1, 3)
        px = [(min(i // C, R - 1 - i // C, i % C, C - 1 - i % C) // s * rng.choice([1, 1])) % L for i in range(n)]
    elif kind == "stripes":
        s, o = rng.randint(1, 3), rng.randint(0, 1)
        px = [((i % C if o else i // C) // s * 7) % L for i in range(n)]
    elif kind == "checker":
        px = [(i % C + i // C) % 2 * (L - 1) for i in range(n)]
    elif kind == "walk":
        px, v = [], rng.randrange(L)
        for _ in range(n):
            v = min(L - 1, max(0, v + rng.choice([-1, 0, 0, 1]))); px.append(v)
        px = [px[(i // C) * C + (i % C if (i // C) % 2 == 0 else C - 1 - i % C)] for i in range(n)]
    elif kind == "islands":
        px = [L - 1] * n
        for _ in range(max(1, n // 12)):
            y, x, h, w, g = rng.randrange(R), rng.randrange(C), rng.randint(1, max(1, R // 2)), rng.randint(1, max(1, C // 2)), rng.randrange(L)
            for yy in range(y, min(R, y + h)):
                for xx in range(x, min(C, x + w)):
                    px[yy * C + xx] = g
    else:
        px = [rng.randrange(L)] * n
    for _ in range(rng.choice([0, 0, 1, 2, n // 10])):
        px[rng.randrange(n)] = rng.randrange(L)
    return [base + v for v in px]


def size_for(rng, alg, threads, big=0):
    gr, gc = GRID[alg].get(threads, (1, 1))
    if big:
        return rng.randint(max(gr, big // 2), big), rng.randint(max(gc, big // 2), big)
    k = rng.choice([0, 1, 2, 3, 5, 7, 9])
    return gr + rng.randint(0, k), gc + rng.randint(0, k)


def params(rng, n, focus=None, small=True):
    """Parameters biased towards reporting something; n pixels."""
    p = {}
    p["delta"] = [rng.choice([0, 1, 1, 2, 3, 5, 20, 255])]
    p["stable"] = list(rng.choice([(1, 4), (1, 2), (1, 1), (3, 1), (50, 1), (100000, 1), (0, 1)] if small else [(1, 4), (1, 2), (1, 1), (3, 1), (50, 1), (0, 1)]))
    p["dup"] = list(rng.choice([(-1, 1), (0, 1), (1, 16), (1, 8), (1, 4), (1, 2), (7, 8)]))
    p["nms"] = list(rng.choice([(0, 1), (0, 1), (-1, 1), (13, 1009), (101, 1009), (400, 1009)] if small else [(0, 1), (-1, 1)]))
    p["size"] = [rng.choice([1, 1, 2, 3, 5, 20]), *rng.choice([(1, 4), (1, 2), (3, 4), (1, 1), (1, 1)])]
    p["conn"] = [4]
    if focus == "tree":
        p.update(delta=[0], dup=[-1, 1], size=[rng.choice([1, 1, 1, 2, 4]), *rng.choice([(1, 1), (1, 1), (1, 2)])])
    elif focus == "stable":
        p.update(delta=[rng.choice([1, 1, 2, 3, 5, 9, 40, 255])], dup=[-1, 1], nms=[-1, 1])
    elif focus == "nms":
        p.update(delta=[rng.choice([1, 1, 1, 2, 3])], dup=[-1, 1], stable=list(rng.choice([(1, 1), (3, 1), (100000, 1)] if small else [(1, 1), (3, 1), (50, 1)])),
                 nms=list(rng.choice([(0, 1), (0, 1), (13, 1009), (101, 1009), (400, 1009)] if small else [(0, 1)])), size=[rng.choice([1, 1, 2, 4]), *rng.choice([(3, 4), (1, 1)])])
    elif focus == "dup":
        p.update(nms=[-1, 1], delta=[rng.choice([0, 0, 1, 3])], stable=[50, 1], dup=list(rng.choice([(1, 16), (1, 8), (1, 4), (1, 2), (7, 8)])),
                 size=[rng.choice([1, 1, 2, 4]), *rng.choice([(1, 2), (3, 4), (1, 1)])])
    return p


def sets(h, p):
    return [{"op": "set", "h": h, "k": k, "v": v} for k, v in p.items()]


NOMASK = {"kind": "none"}


def ext(h, r, R, C, px, layout="cont", mask=NOMASK):
    return {"op": "ext", "h": h, "r": r, "R": R, "C": C, "layout": layout, "mask": mask, "px": px}


def describe(events, k):
    e = events[k]
    conf = {}
    for x in events[:k]:
        if x["op"] == "new":
            conf[x["h"]] = {"alg": x["alg"]}
        elif x["op"] == "set":
            conf[x["h"]][x["k"]] = x["v"]
    return f"event {k} ({e['op']}) is not what Mser.tla allows: instance {conf.get(e.get('h'))}, {e.get('R')}x{e.get('C')} image {str(e.get('px'))[:160]} ... reported {str(e.get('out') or e.get('how'))[:300]}"


def count_known(printed):
    import re
    return sum(int(x) for o in printed for x in re.findall(r'<<\s*"KNOWN",\s*(\d+)\s*>>', o))
