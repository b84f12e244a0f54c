"""Running TLC, in parallel where there is more than one trace."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class ModelError(Exception):
    """TLC could not evaluate the model: an error of the check, never a verdict on the code."""


def tlc(folder, module, cfg=None, env=None, timeout=600, workers=1, heap="2g", extra=()):
    """Runs TLC and returns its output; the caller decides what it means."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
               "-nowarning", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
        p = subprocess.run(cmd, cwd=os.path.join(ROOT, "spec", folder), env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def why(out):
    """The part of TLC's output that says what went wrong."""
    m = re.search(r"^Error: .*", out, re.M)
    return (out[m.start():m.start() + 1500] if m else "") + "\n...\n" + out[-800:]


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("generated ", "generated, ", 1)) \
        or re.search(r"(\d+) states generated,? (\d+) distinct", out.replace(",", ""))
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(folder, module, cfg=None, timeout=800, workers=JOBS, heap="8g", env=None, extra=()):
    """Exhaustive check of the specification itself.  Returns (states, distinct)."""
    rc, out = tlc(folder, module, cfg, env=env, timeout=timeout, workers=workers, heap=heap, extra=extra)
    if rc != 0 or "No error has been found" not in out:
        raise ModelError(f"{module}/{cfg or module}: TLC rc={rc}\n" + why(out))
    return stats(out)


def validate(folder, module, lines, timeout=800, cfg=None):
    """Checks one trace (a list of events).  Returns the number of lines explained (len(lines) when accepted) and
    what the trace specification printed."""
    fd, path = tempfile.mkstemp(suffix=".ndjson", prefix="trace-")
    with os.fdopen(fd, "w") as f:
        for e in lines:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    try:
        rc, out = tlc(folder, module, cfg, env={"TRACE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    m = re.search(r'<<\s*"LINES",\s*(\d+),\s*(\d+)\s*>>', out)
    if not m:
        raise ModelError(f"{module}: TLC rc={rc} gave no verdict\n" + why(out))
    done, total = int(m.group(1)), int(m.group(2))
    if total != len(lines) or (rc == 0) != (done == total):
        raise ModelError(f"{module}: TLC rc={rc} lines={done}/{total} of {len(lines)}\n" + why(out))
    return done, out


def validate_sessions(folder, module, sessions, timeout=800, reset={"op": "reset"}, shards=JOBS, cfg=None, cost=None):
    """sessions: list of event lists.  Each is checked from the initial state.  Returns (rejected, printed) where
    rejected is a list of (session index, event index)."""
    if not sessions:
        return [], []
    cost = cost or (lambda s: sum(len(str(e)) for e in s))
    order = sorted(range(len(sessions)), key=lambda i: -cost(sessions[i]))
    bins = [[0, []] for _ in range(min(shards, len(sessions)))]
    for i in order:
        b = min(bins)
        b[0] += cost(sessions[i]) + 1
        b[1].append(i)

    def run(b):
        todo, bad, printed = sorted(b[1]), [], []
        while todo:
            lines, owner = [], []
            for i in todo:
                lines.append(reset); owner.append((i, -1))
                for k, e in enumerate(sessions[i]):
                    lines.append(e); owner.append((i, k))
            done, out = validate(folder, module, lines, timeout, cfg)
            printed.append(out)
            if done == len(lines):
                break
            i, k = owner[done]
            bad.append((i, k))
            todo = [j for j in todo if j > i]
            if len(bad) >= 3:
                break
        return bad, printed

    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(run, bins))
    return sorted(x for r in rs for x in r[0]), [o for r in rs for o in r[1]]


def generate(folder, module, cfg, num, depth, seed, timeout=300):
    """Random behaviours of a generator specification (TLC -simulate); each is printed by its invariant as PLAN <json>."""
    rc, out = tlc(folder, module, cfg, timeout=timeout, workers=1, extra=("-simulate", f"num={num}", "-depth", str(depth + 1), "-seed", str(seed)))
    plans = [json.loads(json.loads(m)[5:]) for m in re.findall(r'^("PLAN .*")$', out, re.M)]
    if len(plans) < num * 9 // 10:
        raise ModelError(f"{module}/{cfg}: {len(plans)} behaviours\n" + why(out))
    return plans[:num]
