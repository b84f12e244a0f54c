"""Checks of the MSER extractors (specification folder spec/mser)."""
import random
import mser, tlc
from mser import ext, sets, image, size_for, params, GRID
from check import build, campaign

CODE = ["v1", "v2", "ll", "ms"]


def run(chk, plans, big=()):
    ex = mser.Exec(build("drv_mser"))
    batch = 400
    for k in range(0, len(plans), batch):
        _, printed = campaign(chk, "mser", "MserTrace", ex, plans[k:k + batch], describe=mser.describe)
        n = mser.count_known(printed)
        if n:
            chk.known_met["split8"] = chk.known_met.get("split8", 0) + n
        if chk.violations or chk.left() < 0:
            break
    else:
        if big:
            campaign(chk, "mser", "MserTrace", ex, list(big), describe=mser.describe)
    ex.d.stop()


def config(rng, alg, focus, conn=None, th=None, big=0, small=True):
    th = th or rng.choice(list(GRID[alg]))
    R, C = size_for(rng, alg, th, big)
    p = params(rng, R * C, focus, small=R * C <= 400 and small)
    p["threads"] = [th]
    p["conn"] = [conn or rng.choice([4, 4, 8])]
    p["rec"] = [rng.choice([-1, 1, 3, 20, 2 ** 31 - 1])]
    return p, R, C


def single(rng, alg, focus, layout="cont", **kw):
    p, R, C = config(rng, alg, focus, **kw)
    return [{"op": "new", "h": 1, "alg": alg}] + sets(1, p) + [ext(1, 1, R, C, image(rng, R, C), layout)]


def singles(rng, n, focus, algs=CODE, **kw):
    return [single(rng, algs[i % len(algs)], focus, **kw) for i in range(n)]


def large(rng, n, focus, lo=40, hi=72, algs=CODE, conn=4, layout="cont"):
    """Images with hundreds to thousands of regions, with sizes that are no multiples of the partitions."""
    out = []
    for i in range(n):
        alg = algs[i % len(algs)]
        p, R, C = config(rng, alg, focus, conn=conn if GRID[alg] != {4: (1, 1)} else rng.choice([4, 8]), big=rng.randint(lo, hi), small=False)
        kind = rng.choice(["noise", "noise", "walk", "blobs", "islands", "ramp"])
        out.append([{"op": "new", "h": 1, "alg": alg}] + sets(1, p) + [ext(1, 1, R, C, image(rng, R, C, kind, rng.choice([4, 16, 64, 256])), layout)])
    return out


def exhaustive(alg, R, C, levels, p, batch=60):
    """Every image of a small size with the given levels, on one instance per batch."""
    import itertools
    imgs = list(itertools.product(levels, repeat=R * C))
    out = []
    for k in range(0, len(imgs), batch):
        out.append([{"op": "new", "h": 1, "alg": alg}] + sets(1, p) + [ext(1, 1, R, C, list(px)) for px in imgs[k:k + batch]])
    return out


def M01(chk):
    rng = random.Random(chk.seed * 7919 + 1)
    T = chk.thorough
    chk.model("mser", "MC_ComponentTree", "MC_ComponentTree_B")
    if T:
        for m in "ACD":
            chk.model("mser", "MC_ComponentTree", "MC_ComponentTree_" + m)
    all_ = {"delta": [0], "dup": [-1, 1], "size": [1, 1, 1], "nms": [-1, 1]}
    plans = []
    for alg in CODE:
        for conn in (4, 8):
            plans += exhaustive(alg, 2, 3 if not T else 4, (0, 1, 255), dict(all_, threads=[min(GRID[alg])], conn=[conn], rec=[-1 if conn == 4 else 20]))
    for alg, th in (("v1", 2), ("v1", 4), ("v2", 4)):
        plans += exhaustive(alg, 2, 3 if not T else 4, (0, 1, 255), dict(all_, threads=[th], conn=[4]))
        plans += exhaustive(alg, 3, 3, (0, 1), dict(all_, threads=[th], conn=[4]))
    plans += singles(rng, 1600 if T else 360, "tree")
    run(chk, plans, large(rng, 48 if T else 12, "tree"))


def M02(chk):
    rng = random.Random(chk.seed * 7919 + 2)
    T = chk.thorough
    chk.model("mser", "MC_Mser", "MC_Mser_B" if not T else "MC_Mser_A")
    run(chk, singles(rng, 3000 if T else 640, "stable"), large(rng, 40 if T else 10, "stable"))


def M03(chk):
    rng = random.Random(chk.seed * 7919 + 3)
    T = chk.thorough
    chk.model("mser", "MC_Mser", "MC_Mser_B" if not T else "MC_Mser_A")
    run(chk, singles(rng, 3000 if T else 640, "nms"), large(rng, 40 if T else 10, "nms"))


def M04(chk):
    rng = random.Random(chk.seed * 7919 + 4)
    T = chk.thorough
    chk.model("mser", "MC_Mser", "MC_Mser_B" if not T else "MC_Mser_A")
    run(chk, singles(rng, 3000 if T else 640, "dup"), large(rng, 40 if T else 10, "dup"))


def M05(chk):
    """The same image and parameters with every number of threads, on one instance and on several."""
    rng = random.Random(chk.seed * 7919 + 5)
    T = chk.thorough
    plans = []
    for i in range(400 if T else 90):
        alg = rng.choice(["v1", "v2"])
        big = 0 if i % 6 else rng.randint(16, 34)
        p, R, C = config(rng, alg, rng.choice([None, "tree", "stable", "nms", "dup"]), th=32, big=big)
        px = image(rng, R, C)
        # a rare pattern: everything of interest along the borders of the partitions
        if i % 3 == 0:
            for _ in range(R * C // 2):
                y = rng.choice([R // 2 - 1, R // 2, R // 4, rng.randrange(R)]) % R
                x = rng.choice([C // 2 - 1, C // 2, C // 4, rng.randrange(C)]) % C
                px[y * C + x] = rng.choice(px)
        ths = list(GRID[alg])
        rng.shuffle(ths)
        plan = [{"op": "new", "h": 1, "alg": alg}] + sets(1, p)
        for k, th in enumerate(ths):
            if k % 3 == 2:
                plan += [{"op": "del", "h": 1}, {"op": "new", "h": 1, "alg": alg}] + sets(1, p)
            plan += [{"op": "set", "h": 1, "k": "threads", "v": [th]}, ext(1, k, R, C, px)]
        plans.append(plan)
    run(chk, plans, large(rng, 24 if T else 8, None, algs=["v1", "v2"]))
    # fewer and more OpenMP workers than partitions: which worker takes which partition must not matter
    for workers in ((1, 3, 16) if T else (1, 3)):
        ex = mser.Exec(build("drv_mser"), threads=workers)
        _, printed = campaign(chk, "mser", "MserTrace", ex, [rng.choice(plans) for _ in range(60 if T else 16)], describe=mser.describe)
        n = mser.count_known(printed)
        if n:
            chk.known_met["split8"] = chk.known_met.get("split8", 0) + n
        ex.d.stop()


def concrete(rng, plan, observe, conn8=False, layouts=("cont",)):
    """Turns a behaviour of MserGen into a session: image and parameter numbers become images and settings."""
    hands, out, live = {}, [], {}
    pool = {}
    pset = {}
    for c in plan:
        op = c["op"]
        if op == "new":
            hands[c["h"]] = c["alg"]
            out.append(c)
            p = params(rng, 60, rng.choice(["tree", "nms", "dup", None]))
            p["threads"] = [rng.choice(list(GRID[c["alg"]]))]
            if c["alg"] in ("ll", "ms") and rng.random() < .4:
                p["conn"] = [8]
            p["rec"] = [rng.choice([-1, 3, 20, 2 ** 31 - 1])]
            out += sets(c["h"], p)
        elif op == "param":
            alg = hands[c["h"]]
            key = (c["h"], c["p"], alg)
            if key not in pset:
                p = params(rng, 60, rng.choice(["tree", "tree", "nms", "dup", "stable", None]))
                p["threads"] = [rng.choice(list(GRID[alg]))]
                p["enable"] = rng.choice([[1, 1], [1, 1], [0, 1], [1, 0]])
                p["rec"] = [rng.choice([-1, 3, 20, 2 ** 31 - 1])]
                pset[key] = p
            out += sets(c["h"], pset[key])
        elif op == "ext":
            i = c["i"]
            if i not in pool:
                big = rng.random() < .15
                same = [v for v in pool.values()]
                if same and rng.random() < .5:
                    # as many pixels as another image of the session, in another shape
                    n0 = same[-1][0] * same[-1][1]
                    shapes = [(a, n0 // a) for a in range(4, n0 // 8 + 1) if n0 % a == 0]
                    R, C = rng.choice(shapes) if shapes else (4, 8)
                else:
                    R, C = (4 + rng.randrange(12), 8 + rng.randrange(12)) if not big else (rng.randint(20, 36), rng.randint(20, 36))
                    if rng.random() < .4:
                        R, C = rng.choice([(6, 8), (8, 12), (12, 12), (12, 16), (16, 24), (24, 24), (24, 30), (30, 32)])
                pool[i] = (R, C, image(rng, R, C))
            R, C, px = pool[i]
            e = ext(c["h"], c["r"], R, C, px, rng.choice(layouts))
            if hands[c["h"]] == "ll" and rng.random() < .3:
                e["mask"] = {"kind": "image", "px": [rng.choice([0, 1, 1, 1]) for _ in px]}
            out.append(e)
            live[c["r"]] = 1
        elif op == "del":
            hands.pop(c["h"]); out.append(c)
        else:
            out.append(c)
            if op in ("copy", "assign"):
                live[c["b"]] = 1
            elif op == "drop":
                live.pop(c["r"])
        if observe and op in ("ext", "copy", "assign", "drop", "del", "clear"):
            out += [{"op": "res", "r": r} for r in sorted(live)]
    return out + ([] if observe else [{"op": "res", "r": r} for r in sorted(live)])


def M06(chk):
    rng = random.Random(chk.seed * 7919 + 6)
    T = chk.thorough
    n = 1200 if T else 220
    gen = tlc.generate("mser", "MserGen", "MserGen_history", n, 16, chk.seed)
    run(chk, [concrete(rng, p, False, layouts=("cont", "cont", "sub")) for p in gen])


def M07(chk):
    rng = random.Random(chk.seed * 7919 + 7)
    T = chk.thorough
    n = 800 if T else 160
    gen = tlc.generate("mser", "MserGen", "MserGen_results", n, 22, chk.seed)
    run(chk, [concrete(rng, p, True) for p in gen])


def mask_for(rng, R, C, px):
    m = some_mask(rng, R, C, px)
    if m["kind"] == "image":
        m["lay"] = rng.choice(["", "sub", "sub", "flip"])
    return m


def some_mask(rng, R, C, px):
    n = R * C
    k = rng.randrange(6)
    if k == 0:
        return {"kind": "value", "v": rng.choice(px)}
    if k == 1:
        return {"kind": "value", "v": rng.choice([0, 255, rng.choice(px) ^ 1])}
    if k == 2:
        return {"kind": "image", "px": [rng.choice([0, 1, 1, 1, 255]) for _ in range(n)]}
    if k == 3:  # a rectangle of interest
        t, l = rng.randrange(R), rng.randrange(C)
        b, r = rng.randint(t, R - 1), rng.randint(l, C - 1)
        return {"kind": "image", "px": [int(t <= i // C <= b and l <= i % C <= r) for i in range(n)]}
    if k == 4:  # a wall
        x = rng.randrange(C)
        return {"kind": "image", "px": [int(i % C != x) for i in range(n)]}
    return {"kind": "image", "px": [rng.choice([0, 0, 0, 1]) for _ in range(n)]}


def M08(chk):
    rng = random.Random(chk.seed * 7919 + 8)
    T = chk.thorough
    chk.model("mser", "MC_ComponentTree", "MC_ComponentTree_B")
    plans = []
    for i in range(2400 if T else 560):
        p, R, C = config(rng, "ll", rng.choice([None, "tree", "tree", "stable", "nms", "dup"]), big=0 if i % 40 else 30)
        px = image(rng, R, C)
        plan = [{"op": "new", "h": 1, "alg": "ll"}] + sets(1, p) + [ext(1, 1, R, C, px, rng.choice(["cont", "sub", "flip"]), mask_for(rng, R, C, px))]
        if i % 4 == 0:
            plan += [ext(1, 1, R, C, px), ext(1, 1, R, C, px, "cont", mask_for(rng, R, C, px))]
        plans.append(plan)
    run(chk, plans)


def M09(chk):
    rng = random.Random(chk.seed * 7919 + 9)
    T = chk.thorough
    plans = []
    for i in range(2000 if T else 480):
        alg = CODE[i % 4]
        p, R, C = config(rng, alg, rng.choice([None, "tree", "tree", "stable", "nms", "dup"]))
        px = image(rng, R, C)
        lays = ["sub", "flip", "cont"]
        rng.shuffle(lays)
        plans.append([{"op": "new", "h": 1, "alg": alg}] + sets(1, p) + [ext(1, k, R, C, px, l) for k, l in enumerate(lays[:2])])
    run(chk, plans, large(rng, 6, None, layout="sub") + large(rng, 6, None, layout="flip"))


def M10(chk):
    rng = random.Random(chk.seed * 7919 + 10)
    T = chk.thorough
    chk.model("mser", "MC_Mser", "MC_Mser_C" if not T else "MC_Mser_A")
    plans = []
    for i in range(1200 if T else 280):
        alg = CODE[i % 4]
        p, R, C = config(rng, alg, rng.choice([None, "tree", "stable", "nms", "dup"]))
        px = image(rng, R, C)
        seq = [[1, 0], [0, 1], [1, 1], [0, 0]]
        rng.shuffle(seq)
        plan = [{"op": "new", "h": 1, "alg": alg}] + sets(1, p)
        for k, en in enumerate(seq[:3]):
            plan += [{"op": "set", "h": 1, "k": "enable", "v": en}, ext(1, rng.choice([0, k]), R, C, px if k != 1 else [255 - v for v in px])]
        plans.append(plan)
    run(chk, plans)


def M11(chk):
    """Every encoding of the points of a region and the image drawn from it."""
    rng = random.Random(chk.seed * 7919 + 11)
    T = chk.thorough
    plans = []
    for i in range(1200 if T else 300):
        alg = CODE[i % 4]
        p, R, C = config(rng, alg, rng.choice(["tree", "tree", "dup", None]), big=0 if i % 12 else rng.randint(14, 30))
        px = image(rng, R, C)
        plan = [{"op": "new", "h": 1, "alg": alg}] + sets(1, p)
        for k, rec in enumerate(rng.sample([-1, 0, 1, 2, 5, 20, 100, 2 ** 31 - 1], 3)):
            plan += [{"op": "set", "h": 1, "k": "rec", "v": [rec]}, ext(1, k, R, C, px), {"op": "renderall", "r": k, "n": 12, "C": C}]
            if k == 1:
                plan += [{"op": "copy", "a": 1, "b": 5}, {"op": "drop", "r": 1}, {"op": "renderall", "r": 5, "n": 6, "C": C}]
        plans.append(plan)
    run(chk, plans)
