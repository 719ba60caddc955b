"""P06: concurrent FTP sessions do not influence each other except through the files they share."""
import random, threading
from lib import common, ftp, ftpchecks as F


def judge(b):
    d, o = b["diff"], b["obs"]
    if len({h[0] for h in b["history"]}) < 2 and "died" not in d:
        return None         # a single session misbehaving on its own is P01-P04's business
    return "interleaving: " + str(d)


CFG = """SPECIFICATION TSpec
CONSTANTS
 Clients = {"c1"}
 Anonymous = TRUE
 Users <- trUsers
 Commands = {}
 InitFs <- trInit
 LinkTarget <- trLinks
 Contents = {}
 MaxSteps = 0
"""
SIZES = {len(v): k for k, v in ftp.CONTENT.items()}


def stress(ctx, exe, nclients, length):
    """Truly concurrent sessions, each in a directory of its own; the recorded histories go to TLC."""
    base = common.scratch("stress", owner=common.NOBODY)
    srv = ftp.Server(exe, [a.replace("@ROOT@", base) for a in ftp.CLI_ARGV])
    traces = [None] * nclients
    start = threading.Barrier(nclients)

    def client(ci):
        rng = random.Random(repr((ctx.seed, ctx.tier, ci)))
        ev = []
        try:
            k = ftp.Conn(srv)
            k.reply()
            for c in ftp.LOGIN:
                ftp.perform(k, c)
            me = "w%d" % ci
            ftp.perform(k, {"op": "MKD", "arg": {"abs": True, "comps": [me]}})
            ftp.perform(k, {"op": "CWD", "arg": {"abs": True, "comps": [me]}})
            start.wait(60)
            depth = 0
            for _ in range(length):
                op = rng.choice(["MKD", "CWD", "CDUPS", "STOR", "STOR", "RETR", "RETR", "LIST", "NLST", "DELE", "RMD", "PASV", "PASV", "PASV", "PWD", "NOOP", "EPSVALL"])
                cmd = {"op": op}
                if op == "CDUPS":
                    if depth == 0:
                        continue
                    cmd = {"op": "CDUP"}
                elif op in ("MKD", "CWD", "STOR", "RETR", "DELE", "RMD", "LIST"):
                    cmd["arg"] = {"abs": False, "comps": [rng.choice("abk")]}
                    if op == "CWD" and depth >= 2:
                        continue
                    if op == "LIST" and rng.random() < .5:
                        cmd["arg"]["comps"] = []
                elif op == "NLST":
                    cmd["arg"] = {"abs": False, "comps": []}
                if op == "STOR":
                    cmd["c"] = rng.choice(["c0", "c1", "c2", "c3"])
                    got = ftp.perform(k, dict(cmd, bytes=ftp.CONTENT[cmd["c"]]))
                else:
                    got = ftp.perform(k, cmd)
                if op == "CWD" and got["codes"] == [250]:
                    depth += 1
                if op == "CDUPS" and got["codes"] == [250]:
                    depth -= 1
                data = {"k": "none"}
                if got["data"] is not None and cmd["op"] in ("LIST", "NLST"):
                    data = {"k": cmd["op"].lower(), "v": [{"name": e[0], "dir": e[1], "c": "" if e[2] is None else SIZES.get(e[2], "?")} for e in ftp.parse_list(got["data"], cmd["op"] == "NLST")]}
                elif got["data"] is not None:
                    data = {"k": "file", "v": ftp.content_id(got["data"])}
                elif cmd["op"] == "PWD" and got["text"]:
                    t = got["text"][0]
                    p = [x for x in t[t.find('"') + 1:t.rfind('"')].split("/") if x]
                    data = {"k": "pwd", "v": ["w"] + p[1:] if p[:1] == [me] else p}
                ev.append({"cmd": cmd, "codes": got["codes"] + ([999] if got["hang"] else []), "data": data})
                if got["closed"] or got["hang"]:
                    break
            k.close()
        except Exception as e:      # noqa
            ev.append({"cmd": {"op": "NOOP"}, "codes": [998], "data": {"k": "none"}, "err": repr(e)})
        traces[ci] = {"ev": ev}
    ts = [threading.Thread(target=client, args=(i,)) for i in range(nclients)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    alive = srv.alive()
    srv.stop()
    if not alive:
        ctx.violation("stress:died", {}, "server died under %d concurrent sessions" % nclients)
    return traces


STALLS = ["silent", "half", "user", "pasv", "stor", "stor-part", "retr", "list"]


def stall(srv, base, kind, i):
    """a session which stops in the middle of something and stays there"""
    k = ftp.Conn(srv)
    k.reply()
    if kind == "silent":
        return k
    if kind == "half":
        k.send(b"USER anony")
        return k
    if kind == "user":
        ftp.perform(k, ftp.LOGIN[0])
        k.send(b"USER anonymous\r\nPA")
        return k
    for c in ftp.LOGIN:
        ftp.perform(k, c)
    if kind == "pasv":      # announced a transfer, and nobody comes
        k.send(b"PASV\r\n")
        return k
    ftp.perform(k, {"op": "PASV"})
    if kind in ("stor", "stor-part"):
        k.send(b"STOR stalled%d\r\n" % i)
        k.reply()
        if kind == "stor-part":
            k.data.sendall(b"x" * 5000)
    elif kind == "retr":    # the file is larger than what the sockets hold
        k.send(b"RETR huge\r\n")
        k.reply()
    else:
        k.send(b"LIST\r\n")
        k.reply()
    return k


def stalled(ctx, exe):
    """Sessions which stand still, whatever they were doing, keep no other session waiting."""
    base = common.scratch("stall", owner=common.NOBODY)
    with open(base + "/huge", "wb") as f:
        f.write(b"h" * (24 << 20))
    for kinds in [[k] * 9 for k in STALLS] + [STALLS * 3]:
        srv = ftp.Server(exe, [a.replace("@ROOT@", base) for a in ftp.CLI_ARGV])
        held = []
        try:
            held = [stall(srv, base, k, i) for i, k in enumerate(kinds)]
            me = "w"
            k = ftp.Conn(srv)
            k.reply()
            got = []
            rel = lambda n: {"abs": False, "comps": [n]}
            for c in [*ftp.LOGIN, {"op": "MKD", "arg": rel(me)}, {"op": "CWD", "arg": rel(me)}, {"op": "PASV"}, {"op": "STOR", "arg": rel("f"), "bytes": b"abc"}, {"op": "PASV"}, {"op": "RETR", "arg": rel("f")},
                      {"op": "PASV"}, {"op": "LIST", "arg": {"abs": False, "comps": []}}, {"op": "DELE", "arg": rel("f")}, {"op": "CDUP"}, {"op": "RMD", "arg": rel(me)}, {"op": "NOOP"}]:
                r = ftp.perform(k, c)
                got.append((c["op"], r["codes"], r["hang"]))
                if r["hang"] or r["closed"]:
                    break
            ctx.traces += 1
            want = [[331], [230], [257], [250], [227], [125, 226], [227], [125, 226], [227], [125, 226], [250], [250], [250], [200]]
            if [x[1] for x in got] != want:
                ctx.violation("stalled:" + kinds[0] + (":all" if len(set(kinds)) > 1 else ""), {"others": kinds, "got": got}, "while other sessions stand still (%s), a session sees %r" % (", ".join(sorted(set(kinds))), got))
            k.close()
        finally:
            for x in held:
                x.close()
            srv.stop()
        if ctx.too_many():
            return


def run(ctx):
    exe = F.cli()
    stalled(ctx, exe)
    g = F.graph(ctx, "MCFtpIso", "Spec", clients=("c1", "c2"), extra=" Wide = %s" % ("FALSE" if ctx.quick else "TRUE"))
    ctx.need(len({e[1]["c"] for e in g.edges}) == 2, "one client only")
    F.drive(ctx, g, ctx.pick(14000, 300000), judge, exe, ftp.CLI_ARGV, prelogin=False, maxlen=200, per_class=1,
            cls=lambda g, e: (e[1]["c"], e[1]["cmd"]["op"], str(e[1]["codes"]), str(g.states[e[0]][1]["c1"][:4]), str(g.states[e[0]][1]["c2"][:4])))
    for rnd in range(ctx.pick(2, 12)):
        traces = stress(ctx, exe, 12, ctx.pick(120, 400))
        rej = common.validate("FtpTrace", CFG, traces, ctx)
        ctx.count("concurrent_histories", len(traces))
        for r in rej:
            ev = traces[r["reject"] - 1]["ev"]
            ctx.violation("stress:" + ev[r["at"] - 1]["cmd"]["op"], {"history": ev[:r["at"]], "spec": r}, "concurrent session: step %d %r answered %r / %r, the specification allows %r / %r" %
                          (r["at"], ev[r["at"] - 1]["cmd"], ev[r["at"] - 1]["codes"], ev[r["at"] - 1]["data"], r["expected"], r["data"]))
        if ctx.too_many():
            break
    ctx.sample({"history": traces[0]["ev"][:8]})
    ctx.assumptions.append("interleaving at command granularity in the graph replay; OS scheduling in the concurrent runs")
