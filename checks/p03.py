"""P03: every FTP command gets exactly one final reply, in order; nothing happens after QUIT."""
import socket
from lib import common, ftp, ftpchecks as F


def shape(codes):
    return ["p" if 100 <= c < 200 else "f" for c in codes]


def judge(b):
    d, o, got = b["diff"], b["obs"], b["got"]
    if "died" in d:
        return "died: " + d["died"]
    if "hang" in d:
        return "hang: " + d["hang"]
    if "closed" in d:
        return "closed: " + d["closed"]
    if "codes" in d:
        if any(c < 100 or c > 599 for c in got["codes"]):
            return "malformed: " + d["codes"]
        if sum(1 for c in got["codes"] if c >= 200) != sum(1 for c in o["codes"] if c >= 200):
            return "count: " + d["codes"]
        if shape(got["codes"]) != shape(o["codes"]) and (shape(got["codes"]).count("p") > 1 or shape(got["codes"])[-1:] != ["f"]):
            return "order: " + d["codes"]
    return None


def pipelined(ctx, g, exe, n):
    """Whole command lists sent in one go: replies are the concatenation, and stop at QUIT / hang-up."""
    plain = [i for i, e in enumerate(g.edges) if e[1]["cmd"]["op"] not in ("LIST", "NLST", "RETR", "STOR", "PASV", "EPSV", "PORT")]
    by = {}
    for i in plain:
        by.setdefault(g.edges[i][0], []).append(i)
    base = common.scratch("pipe", owner=common.NOBODY)
    jail = ftp.Jail(base, g.init, g.links)
    jail.reset()
    srv = ftp.Server(exe, [a.replace("@ROOT@", base + "/R") for a in ftp.CLI_ARGV])
    try:
        quits = 0
        for k in range(n):
            jail.reset()
            cur, walk = g.initial, []
            while len(walk) < ctx.rng.randint(2, 14):
                es = by.get(cur, [])
                if not es:
                    break
                e = ctx.rng.choice(es)
                if ctx.rng.random() < 0.7 and g.edges[e][1]["closed"]:
                    continue
                walk.append(e)
                cur = g.edges[e][2]
            if not walk:
                continue
            lines, codes = [], []
            for e in walk:
                c = g.edges[e][1]["cmd"]
                a = ftp.render(c["arg"]) if "arg" in c else None
                lines.append({"EPSVALL": "EPSV ALL", "AUTH": "AUTH TLS", "TYPE": "TYPE I"}.get(c["op"], c.get("line") or (c["op"] + ("" if a is None else " " + a))))
                codes += g.edges[e][1]["codes"]
            ended = g.edges[walk[-1]][1]["closed"]
            tail = ["MKD afterquit", "NOOP", "DELE /f", "RMD /d"] if ended else []
            quits += ended
            conn = ftp.Conn(srv)
            conn.reply()
            for c in ftp.LOGIN:
                ftp.perform(conn, c)
            conn.send("".join(l + "\r\n" for l in lines + tail + ([] if ended else ["QUIT"])).encode())
            if not ended:
                codes = codes + [221]
            got = []
            hang = False
            while True:
                try:
                    r = conn.reply()
                except socket.timeout:
                    hang = True
                    break
                if r is None:
                    break
                got.append(r[0])
            conn.close()
            # closing is synchronous with the end of the session task; wait for its effects to be settled
            snap = jail.snapshot()
            exp = g.expected_fs(g.edges[walk[-1]][2])
            ctx.traces += 1
            ctx.count("pipelined_sessions")
            case = {"lines": lines + tail, "replies": got, "expected": codes}
            if hang:
                ctx.violation("pipe:hang", case, "pipelined session: server did not answer/close")
            elif len(got) != len(codes) or shape(got) != shape(codes):
                ctx.violation("pipe:replies", case, "pipelined session: replies %r, expected %r" % (got, codes))
            elif ended and {p: v for p, v in snap.items()} != exp:
                ctx.violation("pipe:afterquit", case, "commands after the end of the session were executed: tree %r, expected %r" % (snap, exp))
            if ctx.too_many():
                break
        ctx.need(quits > 10, "no pipelined session ended early")
    finally:
        srv.stop()


def run(ctx):
    exe = F.cli()
    g = F.graph(ctx, "MCFtpData", "mcSpecIn")
    ops = {(e[1]["cmd"]["op"], tuple(e[1]["codes"])) for e in g.edges}
    for need in (("LIST", (501,)), ("RETR", (451,)), ("NLST", (501,)), ("STOR", (125, 451)), ("LIST", (425,)), ("STOR", (426,)), ("EPSVALL", (200,))):
        ctx.need(need in ops, "reply situation %r not in the model" % (need,))
    F.drive(ctx, g, ctx.pick(25000, None), judge, exe, ftp.CLI_ARGV, maxlen=120)
    pipelined(ctx, g, exe, ctx.pick(250, 4000))
    g2 = F.graph(ctx, "MCFtpFs", "mcSpecIn", extra=" Small = TRUE")
    F.drive(ctx, g2, ctx.pick(12000, None), judge, exe, ftp.CLI_ARGV)
    ctx.assumptions.append("hang = no reply within %g s; PASV/EPSV peers connect at once" % ftp.TIMEOUT)
