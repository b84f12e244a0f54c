"""What every check shares: building the drivers from /repo's working tree, verdicts, replays, known findings, evidence."""
import hashlib, json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "harness"), os.path.join(ROOT, "lib")]
from drv import Driver
import tlc

BUILD = os.path.join(ROOT, "_build")


def build(target, kind="plain"):
    """Builds one driver; returns its path.  A tree that does not compile is an error of the run, not a violation."""
    d = os.path.join(BUILD, kind)
    subprocess.run([sys.executable, os.path.join(ROOT, "harness", "configure.py"), d] + ([] if kind == "plain" else [kind]), check=True)
    r = subprocess.run(["ninja", "-C", d, os.path.join(d, target)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:])
        raise SystemExit(3)
    return os.path.join(d, target)


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"):
                self.tier = a
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known_met = {}
        self.known = self._known()

    def _known(self):
        out = {}
        for line in open(os.path.join(ROOT, "known-findings.txt")):
            p = line.strip().split(None, 2)
            if line.startswith("finding:") and p[1] == "property=" + self.prop:
                key, text = p[2].split(None, 1)
                out[key.replace("key=", "")] = text
        return out

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        """Seconds left of the budget the run has."""
        return (780 if self.thorough else 240) - (time.time() - self.t0)

    def model(self, folder, module, cfg=None, **kw):
        t = time.time()
        s, d = tlc.model_check(folder, module, cfg, **kw)
        self.cov["states"] += d
        self.cov["transitions"] += s
        self.cov.setdefault("models", []).append({"model": f"{folder}/{cfg or module}", "states": d, "transitions": s, "wall_s": round(time.time() - t, 1)})

    def violation(self, what, replay):
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        text = json.dumps(replay)
        p = os.path.join(d, f"{self.prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
        open(p, "w").write(text)
        self.violations.append({"what": what, "replay": p})
        print(f"VIOLATION property={self.prop} replay={p}")
        print("  " + what, flush=True)

    def finish(self):
        for k, n in sorted(self.known_met.items()):
            if k in self.known:
                print(f"KNOWN-FINDING: property={self.prop} {self.known[k]} (met {n} times)")
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "violations": len(self.violations), "wall_s": round(time.time() - self.t0, 1)}
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        print(f"{self.prop} {self.tier}: " + json.dumps({k: v for k, v in self.cov.items() if k != "samples"})[:800] + f" {ev['wall_s']} s")
        sys.exit(1 if self.violations else 0)


def campaign(chk, folder, module, execute, plans, reset={"op": "reset"}, describe=None, cfg=None, cost=None):
    """Executes every plan (a JSON-able list of commands) against the code, lets the trace specification judge the
    recorded events, confirms a rejection by executing the plan again, and reports it."""
    runs = [execute(p) for p in plans]
    bad, printed = tlc.validate_sessions(folder, module, runs, timeout=max(60, min(850, chk.left() + 300)), reset=reset, cfg=cfg, cost=cost)
    for i, k in bad:
        again = execute(plans[i])
        rej, _ = tlc.validate_sessions(folder, module, [again], reset=reset, cfg=cfg)
        if not rej:
            chk.cov["unconfirmed_rejections"] = chk.cov.get("unconfirmed_rejections", 0) + 1
            # A rejection that does not repeat may still be a race of the code: try a few more times.
            for _ in range(8):
                again = execute(plans[i])
                rej, _ = tlc.validate_sessions(folder, module, [again], reset=reset, cfg=cfg)
                if rej:
                    break
            if not rej:
                continue
        k = rej[0][1]
        ev = again[k] if k >= 0 else {}
        what = (describe(again, k) if describe else f"event {k} is not explained by {folder}/{module}: " + json.dumps(ev)[:600])
        chk.violation(what, {"property": chk.prop, "folder": folder, "module": module, "plan": plans[i], "event": k, "observed": ev})
        if len(chk.violations) >= 3:
            break
    chk.cov["traces_validated_against_impl"] += len(plans)
    chk.cov["transitions"] += sum(len(r) for r in runs)
    chk.cov["events_judged"] = chk.cov.get("events_judged", 0) + sum(len(r) for r in runs)
    for p in plans[:2]:
        if len(chk.cov["samples"]) < 6:
            chk.cov["samples"].append(json.dumps(p)[:800])
    return runs, printed


def generated(chk, folder, gen, module, execute, cfgs, quick=300, batch=1600, describe=None, cfg=None, reserve=60, thorough_batch=None):
    """Campaigns whose plans are behaviours of a generator specification: once over the configurations (a list of
    (configuration, depth) pairs, where depth None means what the file says) in the quick tier, with ever new seeds
    until the time is used up in the thorough one."""
    from concurrent.futures import ThreadPoolExecutor
    round_ = 0
    while True:
        n = (thorough_batch or batch) if chk.thorough else quick
        jobs = []
        for c in cfgs:
            text = open(os.path.join(ROOT, "spec", folder, c + ".cfg")).read()
            depth = int(text.split("Depth = ")[1].split()[0])
            parts = max(1, min(8 // len(cfgs), n // 100))
            for k in range(parts):
                jobs.append((c, depth, (n + parts - 1) // parts, chk.seed * 1000003 + round_ * 101 + k))
        with ThreadPoolExecutor(8) as ex:
            plans = [p for r in ex.map(lambda j: tlc.generate(folder, gen, j[0], j[2], j[1], j[3]), jobs) for p in r]
        campaign(chk, folder, module, execute, plans, describe=describe, cfg=cfg)
        round_ += 1
        if not chk.thorough or chk.violations or chk.left() < reserve + 1.5 * (time.time() - chk.t0) / round_:
            break
    chk.cov["generator"] = [f"{folder}/{c}" for c in cfgs]
    chk.cov["rounds"] = chk.cov.get("rounds", 0) + round_
