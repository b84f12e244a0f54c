import json, os, select, subprocess, time
class Driver:
    """A driver process spoken to line by line; a crash, a hang or a damaged answer is an observable outcome."""
    def __init__(self, path, timeout=60, env=None):
        self.path, self.timeout, self.env = path, timeout, env
        self.p = None
    def start(self):
        e = {**os.environ, "OMP_NUM_THREADS": "8", "MALLOC_PERTURB_": "165", **(self.env or {})}
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
        self.buf = b""
    def stop(self):
        if self.p:
            self.p.kill(); self.p.wait(); self.p = None
    def __call__(self, line):
        if self.p is None: self.start()
        try:
            self.p.stdin.write(line.encode() + b"\n"); self.p.stdin.flush()
        except BrokenPipeError:
            rc = self.p.wait(); self.p = None
            return {"crash": rc}
        end = time.time() + self.timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                self.stop(); return {"hang": 1}
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                rc = self.p.wait(); self.p = None
                return {"crash": rc}
            self.buf += d
        out, self.buf = self.buf.split(b"\n", 1)
        try:
            return json.loads(out)
        except ValueError:
            return {"damaged": out[:200].decode("latin1")}
