"""Client for harness/rawhost: calls into the real rawler library, in parallel, surviving crashes and hangs."""
import json, os, queue, resource, select, struct, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import common


class Host:
    def __init__(self, exe, mem=4 << 30, threads=2, env=None):
        self.exe, self.mem = exe, mem
        self.env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "RAYON_NUM_THREADS": str(threads), "RUST_BACKTRACE": "0", "TZ": "UTC"}
        self.env.update(env or {})
        self.p = None

    def start(self):
        def lim():
            common.demote()
            resource.setrlimit(resource.RLIMIT_AS, (self.mem, self.mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, preexec_fn=lim, cwd="/")

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            for s in (self.p.stdin, self.p.stdout):
                try:
                    s.close()
                except OSError:
                    pass
            self.p = None

    def _read(self, n, deadline):
        out = bytearray()
        fd = self.p.stdout.fileno()
        while len(out) < n:
            left = deadline - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise TimeoutError
            b = os.read(fd, min(1 << 20, n - len(out)))
            if not b:
                raise EOFError
            out += b
        return bytes(out)

    def call(self, head, payload=b"", timeout=30):
        """Returns (dict, bytes). The dict has 'err' for a reported error, 'panic' for a panic,
        'died' when the process ended, 'hang' when it did not answer in time."""
        if self.p is None:
            self.start()
        hb = json.dumps(head).encode()
        msg = struct.pack("<I", len(hb)) + hb + struct.pack("<I", len(payload)) + payload
        deadline = time.time() + timeout
        try:
            self.p.stdin.write(msg)
            self.p.stdin.flush()
            n = struct.unpack("<I", self._read(4, deadline))[0]
            j = json.loads(self._read(n, deadline))
            n = struct.unpack("<I", self._read(4, deadline))[0]
            return j, self._read(n, deadline)
        except TimeoutError:
            self.stop()
            return {"hang": timeout}, b""
        except (EOFError, BrokenPipeError, OSError):
            rc = self.p.poll() if self.p else None
            if rc is None and self.p:
                try:
                    rc = self.p.wait(2)
                except Exception:
                    pass
            self.stop()
            return {"died": rc}, b""


class Pool:
    def __init__(self, n=8, **kw):
        exe = common.build_harness("rawhost")
        self.q = queue.Queue()
        self.hosts = [Host(exe, **kw) for _ in range(n)]
        for h in self.hosts:
            self.q.put(h)
        self.ex = ThreadPoolExecutor(n)

    def call(self, head, payload=b"", timeout=30):
        h = self.q.get()
        try:
            return h.call(head, payload, timeout)
        finally:
            self.q.put(h)

    def map(self, fn, items):
        """fn(item, call) in parallel; results in order."""
        return list(self.ex.map(lambda it: fn(it, self.call), items))

    def close(self):
        self.ex.shutdown(wait=True)
        for h in self.hosts:
            h.stop()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def failed(j):
    return any(k in j for k in ("err", "panic", "died", "hang"))
