"""Replaying behaviours of spec/Ftp.tla against the real FTP server (over TCP, server unprivileged)."""
import json, os, random, shutil, socket, subprocess, time
from collections import defaultdict, deque
from . import common

TIMEOUT = 20.0
DOWN_PORT = 1999   # nobody listens there on a client's private loopback address
CONTENT = {"c0": b"content-zero\r\nline\n", "c1": bytes(range(256)) * 3 + b"\r\n.\r\n", "c2": b"", "x1": b"TOP-SECRET-OUTSIDE-1\n" * 5, "x2": b"OUTSIDE-TWO" * 7,
           "c3": os.urandom(0) + bytes((i * 7 + 3) & 255 for i in range(200001))}


def content_id(data):
    for k, v in CONTENT.items():
        if v == data:
            return k
    return "?%d:%s" % (len(data), data[:24].hex())


_sysrand = random.SystemRandom()


def loopback():
    """A loopback address nobody else uses: keeps concurrent replays apart and avoids port exhaustion."""
    return "127.%d.%d.%d" % (_sysrand.randint(1, 254), _sysrand.randint(0, 254), _sysrand.randint(2, 254))


def free_port(host):
    s = socket.socket()
    s.bind((host, 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Server:
    """The FTP server process, running as an unprivileged user that owns only its jail."""

    def __init__(self, exe, argv, cwd="/"):
        last = ""
        for _ in range(8):
            listen = self.host = loopback()
            self.port = free_port(listen)
            args = [exe] + [a.replace("@PORT@", str(self.port)).replace("@HOST@", listen) for a in argv]
            self.proc = subprocess.Popen(args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                         preexec_fn=common.demote, start_new_session=True,
                                         env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "RUST_BACKTRACE": "0"})
            for _ in range(600):
                if self.proc.poll() is not None:
                    break
                try:
                    socket.create_connection((listen, self.port), timeout=1).close()
                    return
                except OSError:
                    time.sleep(0.02)
            last = "exit status %r" % self.proc.poll()
            self.stop()
        raise common.ToolError("FTP server did not start: " + last[-500:])

    def alive(self):
        return self.proc.poll() is None

    def stop(self):
        if self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()


class Conn:
    """A raw control connection."""

    def __init__(self, srv):
        self.host = srv.host
        self.me = loopback()
        self.sock = socket.create_connection((srv.host, srv.port), timeout=TIMEOUT, source_address=(self.me, 0))
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.eof = False
        self.data = None
        self.listener = None

    def send(self, b):
        try:
            self.sock.sendall(b)
        except OSError:
            pass

    def line(self):
        while b"\r\n" not in self.buf:
            if self.eof:
                return None
            try:
                self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
                d = self.sock.recv(65536)
            except socket.timeout:
                raise
            except OSError:
                d = b""
            if not d:
                self.eof = True
                return None
            self.buf += d
        l, self.buf = self.buf.split(b"\r\n", 1)
        return l

    def reply(self):
        """One complete reply (multi-line aware): (code, text) or None when the server hung up."""
        l = self.line()
        if l is None:
            return None
        if len(l) >= 4 and l[:3].isdigit() and l[3:4] == b"-":
            code = l[:3]
            text = [l[4:]]
            while True:
                m = self.line()
                if m is None:
                    return None
                if m[:3] == code and (len(m) == 3 or m[3:4] == b" "):
                    return int(code), b"\n".join(text)
                text.append(m)
        if len(l) >= 3 and l[:3].isdigit() and (len(l) == 3 or l[3:4] == b" "):
            return int(l[:3]), l[4:]
        return -1, l

    def close_data(self):
        if self.data is not None:
            self.data.close()
            self.data = None

    def close(self):
        self.close_data()
        if self.listener is not None:
            self.listener.close()
            self.listener = None
        self.sock.close()


def render(arg):
    s = "/".join(arg["comps"])
    return "/" + s if arg["abs"] else s


def read_all(sock):
    out = []
    while True:
        d = sock.recv(65536)
        if not d:
            return b"".join(out)
        out.append(d)


def parse_list(data, nlst):
    """Directory listing -> canonical list of [name, isdir, size]."""
    ents = []
    for l in data.split(b"\r\n"):
        if not l:
            continue
        s = l.decode("utf-8", "replace")
        if nlst:
            d = s.endswith("/")
            ents.append([s[:-1] if d else s, d, None])
        else:
            f = s.split(None, 8)
            if len(f) != 9 and len(f) != 8:
                ents.append(["?" + s, False, None])
                continue
            name = f[-1]
            d = s[0] == "d"
            if d and name.endswith("/"):
                name = name[:-1]
            ents.append([name, d, None if d else int(f[4]) if f[4].isdigit() else "?" + f[4]])
    return sorted(ents, key=repr)


class NoGreeting(Exception):
    pass


class Obs(dict):
    pass


# Commands whose replies mark the end of the previous command's replies.
BARRIER = (b"SYST\r\n", 215)


def perform(conn, cmd):
    """Issue one command; whatever goes wrong on the wire is an observation, never an exception."""
    conn.sofar = []
    try:
        return _perform(conn, cmd)
    except (OSError, ValueError, IndexError, AttributeError) as e:
        return dict(codes=conn.sofar + [-2], data=None, closed=False, hang=isinstance(e, socket.timeout), text=[repr(e)])


def _perform(conn, cmd):
    """Execute one abstract command; returns the observation {codes, data, closed, text}."""
    op = cmd["op"]
    names = {"EPSVALL": "EPSV ALL", "AUTH": "AUTH TLS", "TYPE": "TYPE I"}
    if op in ("CWD", "MKD", "RMD", "DELE", "RETR", "STOR"):
        line = "%s %s" % (op, render(cmd["arg"]))
    elif op in ("LIST", "NLST"):
        a = render(cmd["arg"])
        line = op if a == "" else "%s %s" % (op, a)
    elif op == "USER":
        line = "USER " + cmd["name"]
    elif op == "PASS":
        line = "PASS " + cmd["pass"]
    elif op == "PORT":
        if cmd["port"] == "up":
            if conn.listener is None:
                conn.listener = socket.socket()
                conn.listener.bind((conn.me, 0))
                conn.listener.listen(8)
                conn.listener.settimeout(TIMEOUT)
            p = conn.listener.getsockname()[1]
        else:
            p = DOWN_PORT
        line = "PORT %s,%d,%d" % (conn.me.replace(".", ","), p >> 8, p & 255)
        conn.portmode = cmd["port"]
    elif op in ("BAD", "UNKNOWN"):
        line = cmd["line"]
    else:
        line = names.get(op, op)
    barrier = op not in ("QUIT", "BAD")
    conn.send(line.encode() + b"\r\n" + (BARRIER[0] if barrier else b""))
    codes, texts = conn.sofar, []
    data = None
    active = getattr(conn, "portmode", "none") == "up" and op in ("LIST", "NLST", "RETR", "STOR")
    if active:
        # the server connects to us before its first reply (only when it accepted the command for transfer)
        conn.pending_active = True
    while True:
        try:
            r = conn.reply()
        except socket.timeout:
            return dict(codes=codes, data=None, closed=False, hang=True, text=texts)
        if r is None:
            closed = True
            break
        code, text = r
        if barrier and code == BARRIER[1] and not (op == "SYST" and not codes):
            closed = False
            break
        codes.append(code)
        texts.append(text.decode("utf-8", "replace"))
        if len(codes) > 50:
            closed = False
            break
        if code in (227, 229) and op in ("PASV", "EPSV"):
            conn.close_data()
            if code == 227:
                nums = texts[-1][texts[-1].index("(") + 1:texts[-1].index(")")].split(",")
                host, p = ".".join(nums[:4]), int(nums[4]) * 256 + int(nums[5])
            else:
                host, p = conn.host, int(texts[-1].split("|")[3])
            conn.data = socket.create_connection((host, p), timeout=TIMEOUT, source_address=(loopback(), 0))
            conn.portmode = "none"
        elif code in (125, 150) and op in ("LIST", "NLST", "RETR", "STOR"):
            if active and getattr(conn, "pending_active", False):
                conn.pending_active = False
                conn.close_data()
                conn.data, _ = conn.listener.accept()
                conn.data.settimeout(TIMEOUT)
            if op == "STOR":
                try:
                    conn.data.sendall(cmd["bytes"])
                except OSError:
                    pass
                conn.close_data()
            else:
                try:
                    data = read_all(conn.data)
                except (OSError, AttributeError) as e:
                    data = b"<data connection error %s>" % str(e).encode()
                conn.close_data()
    return dict(codes=codes, data=data, closed=closed, hang=False, text=texts)


class Jail:
    """The directory tree of the model, on disk."""

    def __init__(self, base, init, links):
        self.base = base
        self.init = [(tuple(p), n) for p, n in init]
        self.links = {tuple(p): tuple(t) for p, t in links}
        self.order = sorted(self.init, key=lambda x: (len(x[0]), x[0]))

    def phys(self, p):
        return os.path.join(self.base, *p)

    def reset(self):
        assert self.base.startswith("/tmp/verif-")
        for e in os.scandir(self.base):
            if e.is_dir(follow_symlinks=False):
                for k in range(50):     # a server may still be at work in it
                    shutil.rmtree(e.path, ignore_errors=True)
                    if not os.path.lexists(e.path):
                        break
                    time.sleep(.1)
            else:
                os.unlink(e.path)
        for p, n in self.order:
            if p == ():
                continue
            q = self.phys(p)
            if n == "dir":
                os.mkdir(q)
            elif n == "link":
                os.symlink(self.phys(self.links[p]), q)
            else:
                with open(q, "wb") as f:
                    f.write(CONTENT[n])
            os.lchown(q, common.NOBODY, common.NOBODY)

    def snapshot(self):
        out = {(): "dir"}

        def rec(d, pre):
            for e in os.scandir(d):
                p = pre + (e.name,)
                if e.is_symlink():
                    out[p] = "link"
                elif e.is_dir():
                    out[p] = "dir"
                    rec(e.path, p)
                else:
                    out[p] = content_id(open(e.path, "rb").read())
        rec(self.base, ())
        return out


class Graph:
    """State graph emitted by TLC."""

    def __init__(self, emitted):
        self.init = None
        self.links = None
        self.out = defaultdict(list)     # state id -> list of edge ids
        self.edges = []                  # (from, obs, to)
        ids = {}
        self.states = []
        seen = set()
        for e in emitted:
            if isinstance(e, dict):
                if "init" in e:
                    self.init, self.links = e["init"], e["links"]
                continue
            a = json.dumps([sorted(e[0]), e[1]], sort_keys=True)
            b = json.dumps([sorted(e[3]), e[4]], sort_keys=True)
            for k in (a, b):
                if k not in ids:
                    ids[k] = len(self.states)
                    self.states.append(json.loads(k))
            key = (ids[a], json.dumps(e[2]["cmd"], sort_keys=True), e[2]["c"])
            if key in seen:
                continue
            seen.add(key)
            self.out[ids[a]].append(len(self.edges))
            self.edges.append((ids[a], e[2], ids[b]))
        if self.init is None:
            raise common.ToolError("no initial state emitted")
        self.initial = None

    def expected_fs(self, sid):
        f = {tuple(p): n for p, n in self.init}
        for p, n in self.states[sid][0]:
            if n == "none":
                f.pop(tuple(p), None)
            else:
                f[tuple(p)] = n
        return f


def plan_walks(g, start, targets, maxlen, rng):
    """Cover the target edges with walks from the initial state (greedy, nearest uncovered first)."""
    todo = set(targets)
    by_state = defaultdict(set)
    for e in todo:
        by_state[g.edges[e][0]].add(e)
    # non-self-loop adjacency
    adj = defaultdict(dict)
    for i, (a, o, b) in enumerate(g.edges):
        if a != b and b not in adj[a]:
            adj[a][b] = i

    def nearest(src):
        prev = {src: None}
        dq = deque([src])
        while dq:
            u = dq.popleft()
            if by_state.get(u):
                path = []
                while prev[u] is not None:
                    p, e = prev[u]
                    path.append(e)
                    u = p
                return path[::-1]
            for v, e in adj[u].items():
                if v not in prev:
                    prev[v] = (u, e)
                    dq.append(v)
        return None

    walks = []
    while todo:
        walk, cur = [], start
        while len(walk) < maxlen:
            path = nearest(cur)
            if path is None:
                break
            for e in path:
                walk.append(e)
                if e in todo:
                    todo.discard(e)
                    by_state[g.edges[e][0]].discard(e)
                cur = g.edges[e][2]
            es = list(by_state[cur])
            rng.shuffle(es)
            es.sort(key=lambda e: g.edges[e][2] != cur)
            for e in es:
                if len(walk) >= maxlen:
                    break
                if g.edges[e][0] != cur:
                    break
                walk.append(e)
                todo.discard(e)
                by_state[cur].discard(e)
                cur = g.edges[e][2]
                if cur != g.edges[e][0]:
                    break
        if not walk:
            break
        walks.append(walk)
    return walks, len(todo)


def stratify(g, per_class, total, rng, cls):
    """Pick edges so that every class is represented, then fill at random."""
    groups = defaultdict(list)
    for i, e in enumerate(g.edges):
        groups[cls(g, e)].append(i)
    chosen = set()
    for k in sorted(groups, key=repr):
        v = groups[k]
        chosen.update(rng.sample(v, min(per_class, len(v))))
    if len(chosen) < total:
        rest = [i for i in range(len(g.edges)) if i not in chosen]
        chosen.update(rng.sample(rest, min(total - len(chosen), len(rest))))
    return chosen, len(groups)


def expected_data(o):
    d = o["data"]
    if d["k"] == "none":
        return None
    if d["k"] in ("list", "nlst"):
        return sorted([[e["name"], e["dir"], None if (e["dir"] or d["k"] == "nlst") else len(CONTENT[e["c"]])] for e in d["v"]], key=repr)
    if d["k"] == "file":
        return CONTENT[d["v"]]
    if d["k"] == "pwd":
        return "/" + "/".join(d["v"])


def compare(o, got, exp_fs, snap, init_fs):
    """All differences between the model's step and what the server did."""
    diff = {}
    if got["hang"]:
        diff["hang"] = "no reply within %gs after %r" % (TIMEOUT, got["codes"])
        return diff
    if got["codes"] != o["codes"]:
        diff["codes"] = "replies %r, expected %r" % (got["codes"], o["codes"])
    if bool(got["closed"]) != bool(o["closed"]):
        diff["closed"] = "connection %s, expected %s" % ("closed" if got["closed"] else "open", "closed" if o["closed"] else "open")
    exp = expected_data(o)
    op = o["cmd"]["op"]
    if op in ("LIST", "NLST"):
        g = None if got["data"] is None else parse_list(got["data"], op == "NLST")
        if (g or None) != (exp or None):
            diff["data"] = "listing %r, expected %r" % (g, exp)
    elif op == "RETR":
        if got["data"] != exp:
            diff["data"] = "payload %s, expected %s" % (content_id(got["data"]) if got["data"] is not None else None, o["data"])
    elif op == "PWD" and exp is not None and got["codes"] == [257]:
        t = got["text"][0]
        v = t[t.find('"') + 1:t.rfind('"')] if '"' in t else t
        if v != exp:
            diff["data"] = "PWD says %r, expected %r" % (v, exp)
    if got["data"] is not None:
        for k, v in CONTENT.items():
            if k.startswith("x") and v[:11] in got["data"]:
                diff["leak"] = "payload carries content of outside file %s" % k
    ins = {p: n for p, n in snap.items() if p[:1] == ("R",)}
    exp_in = {p: n for p, n in exp_fs.items() if p[:1] == ("R",)}
    if ins != exp_in:
        diff["fs"] = "tree differs: %r, expected %r" % (sorted((p, n) for p, n in ins.items() if exp_in.get(p) != n), sorted((p, n) for p, n in exp_in.items() if ins.get(p) != n))
    outs = {p: n for p, n in snap.items() if p[:1] != ("R",)}
    exp_out = {p: n for p, n in init_fs.items() if p[:1] != ("R",)}
    if outs != exp_out or ("R",) not in snap:
        diff["outside"] = "outside the served root changed: %r, expected %r" % (sorted(set(outs.items()) - set(exp_out.items())), sorted(set(exp_out.items()) - set(outs.items())))
    return diff


LOGIN = [{"op": "USER", "name": "anonymous"}, {"op": "PASS", "pass": "x"}]
FS_OPS = {"MKD", "RMD", "DELE", "STOR", "CWD", "RETR", "LIST", "NLST"}


def replay_walks(g, walks, exe, argv, wid, prelogin=True, server_cwd=None, root_arg=None, stop_after=8):
    """Drive the real server along the walks. Returns (steps, walks done, mismatches)."""
    base = common.scratch("jail%d" % wid, owner=common.NOBODY)
    jail = Jail(base, g.init, g.links)
    jail.reset()
    init_fs = {tuple(p): n for p, n in g.init}
    argv = [a.replace("@ROOT@", root_arg or os.path.join(base, "R")).replace("@JAIL@", base) for a in argv]
    if root_arg == "symlink":
        os.symlink(os.path.join(base, "R"), base + ".lnk")
        argv = [a.replace("symlink", base + ".lnk") for a in argv]
    srv = Server(exe, argv, cwd=base if server_cwd == "jail" else "/")
    steps, done, bad = 0, 0, []
    try:
        for walk in walks:
            jail.reset()
            conns = {}

            def conn_of(c):
                if c not in conns:
                    k = Conn(srv)
                    try:
                        gr = k.reply()
                    except OSError as e:
                        gr = e
                    if not isinstance(gr, tuple) or gr[0] != 220:
                        raise NoGreeting("no greeting: %r" % (gr,))
                    if prelogin:
                        for cmd in LOGIN:
                            perform(k, cmd)
                    conns[c] = k
                return conns[c]
            hist = []
            for e in walk:
                a, o, b = g.edges[e]
                try:
                    k = conn_of(o["c"])
                except (NoGreeting, OSError) as x:
                    bad.append({"diff": {"codes": str(x)}, "obs": o, "got": {}, "before": g.states[a], "history": hist[-40:]})
                    break
                cmd = dict(o["cmd"])
                if cmd["op"] == "STOR":
                    cmd["bytes"] = CONTENT[cmd["c"]]
                hist.append([o["c"], o["cmd"]])
                got = perform(k, cmd)
                if getattr(k, "pending_active", False):
                    k.pending_active = False
                    if k.listener is not None:
                        k.listener.setblocking(False)
                        try:
                            while True:
                                k.listener.accept()[0].close()
                        except OSError:
                            pass
                        k.listener.setblocking(True)
                        k.listener.settimeout(TIMEOUT)
                steps += 1
                exp_fs = g.expected_fs(b)
                snap = jail.snapshot()
                diff = compare(o, got, exp_fs, snap, init_fs)
                if not srv.alive():
                    diff["died"] = "server process died (%s)" % srv.proc.returncode
                if diff:
                    bad.append({"diff": diff, "obs": o, "got": {k2: (v if not isinstance(v, bytes) else content_id(v)) for k2, v in got.items()},
                                "before": g.states[a], "history": hist[-40:]})
                    break
            for k in conns.values():
                k.close()
            done += 1
            if not srv.alive():
                srv = Server(exe, argv, cwd=base if server_cwd == "jail" else "/")
            if len(bad) >= stop_after:
                break
    finally:
        srv.stop()
        shutil.rmtree(base, ignore_errors=True)
        if os.path.islink(base + ".lnk"):
            os.unlink(base + ".lnk")
    return steps, done, bad


def _job(args):
    return replay_walks(*args[:5], **args[5])


def replay_parallel(g, walks, exe, argv, nproc=8, **kw):
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing as mp
    global _G
    nproc = max(1, min(nproc, len(walks)))
    parts = [walks[i::nproc] for i in range(nproc)]
    _G = (g, exe, argv, kw)
    with ProcessPoolExecutor(nproc, mp_context=mp.get_context("fork")) as ex:
        rs = list(ex.map(_job2, [(p, i) for i, p in enumerate(parts)]))
    return sum(r[0] for r in rs), sum(r[1] for r in rs), [b for r in rs for b in r[2]]


def _job2(a):
    g, exe, argv, kw = _G
    return replay_walks(g, a[0], exe, argv, a[1], **kw)


def install_cli(exe):
    """Copy the binary where the unprivileged user can run it."""
    d = common.scratch("bin")
    dst = os.path.join(d, os.path.basename(exe))
    shutil.copy(exe, dst)
    os.chmod(dst, 0o755)
    return dst


CLI_ARGV = ["ftpserver", "--port", "@PORT@", "--listen", "@HOST@", "@ROOT@"]
