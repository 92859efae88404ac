"""Runs the conformance driver interactively: one event in, one recorded event out."""
import json, os, select, subprocess, time

class Session:
    def __init__(self, driver, mode="net", timeout=30, env=None):
        self.driver, self.mode, self.timeout, self.env = driver, mode, timeout, env
        self.p = None
        self.start()

    def start(self):
        e = dict(os.environ)
        e.update(self.env or {})
        self.p = subprocess.Popen([self.driver, self.mode, "-", "-"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e)
        self.buf = b""

    def close(self):
        if self.p is None:
            return
        try:
            self.p.stdin.close()
            self.p.wait(timeout=20)
        except Exception:
            self.p.kill()
            self.p.wait()
        try:
            self.p.stdout.close()
        except Exception:
            pass
        self.p = None

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def send(self, ev):
        """The recorded event; res is "crash" or "hang" when the library did not come back."""
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(ev, separators=(",", ":")) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            return self.dead(ev)
        end = time.time() + self.timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            r = select.select([self.p.stdout], [], [], max(0, left))[0] if left > 0 else []
            if not r:
                self.kill()
                return dict(ev, res="hang", ret="", o={})
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                return self.dead(ev)
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def dead(self, ev):
        try:
            code = self.p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            code = self.p.wait()
        self.p = None
        if code == 3:
            raise RuntimeError("the driver rejected the event " + json.dumps(ev))
        return dict(ev, res="crash", msg="exit %d" % code, ret="", o={})
