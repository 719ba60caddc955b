"""P04: what clients store, list, read, create and delete is exactly what the tree holds."""
from lib import common, ftp, ftpchecks as F


def judge(b):
    d, o, got = b["diff"], b["obs"], b["got"]
    if o["esc"]:
        return None
    if "fs" in d:
        return "tree: " + d["fs"]
    if "data" in d:
        return "payload: " + d["data"]
    if "codes" in d and got["codes"] and o["codes"]:
        # success reported for a failure or the reverse, or a different verdict
        if (got["codes"][-1] >= 400) != (o["codes"][-1] >= 400) or len(got["codes"]) == len(o["codes"]):
            return "verdict: " + d["codes"]
    return None


def run(ctx):
    exe = F.cli()
    g = F.graph(ctx, "MCFtpFs", "mcSpecIn", extra=" Small = %s" % ("TRUE" if ctx.quick else "FALSE"))
    F.drive(ctx, g, ctx.pick(40000, None), judge, exe, ftp.CLI_ARGV)
    g = F.graph(ctx, "MCFtpData", "mcSpecIn")
    F.drive(ctx, g, ctx.pick(15000, None), judge, exe, ftp.CLI_ARGV, maxlen=120)
    # served directory given as a relative path, and through a symlink
    F.drive(ctx, g, ctx.pick(1500, 10000), judge, exe, ftp.CLI_ARGV, maxlen=120, per_class=1, root_arg="R", server_cwd="jail")
    F.drive(ctx, g, ctx.pick(1500, 10000), judge, exe, ftp.CLI_ARGV, maxlen=120, per_class=1, root_arg="symlink")
    big(ctx, exe)
    names(ctx, exe)


def session(srv):
    k = ftp.Conn(srv)
    k.reply()
    for c in ftp.LOGIN:
        ftp.perform(k, c)
    return k


def arg(*comps):
    return {"abs": False, "comps": list(comps)}


def big(ctx, exe):
    """Payload sizes around buffer boundaries, binary and with CR/LF/NUL bytes, in both transfer types."""
    base = common.scratch("big", owner=common.NOBODY)
    srv = ftp.Server(exe, [a.replace("@ROOT@", base) for a in ftp.CLI_ARGV])
    try:
        sizes = [0, 1, 2, 1023, 1024, 1025, 8191, 8192, 8193, 65535, 65536, 65537, 262144, 1000003] + ([] if ctx.quick else [1 << 21, (8 << 20), (16 << 20) + 1, 33554433])
        for n in sizes + ([(5 << 20) + 3, (33 << 20) + 1] if ctx.quick else [(67 << 20) + 5]):
            for typ in (b"TYPE A\r\n", b"TYPE I\r\n"):
                for fill in ("rnd", "crlf", "nul") if n <= 1 << 22 else ("rnd",):
                    data = ctx.rng.randbytes(n) if fill == "rnd" else ((b"\r\n.\n\r" * (n // 5 + 1))[:n] if fill == "crlf" else b"\0" * n)
                    k = session(srv)
                    k.send(typ)
                    k.reply()
                    ftp.perform(k, {"op": "PASV"})
                    a = ftp.perform(k, {"op": "STOR", "arg": arg("u"), "bytes": data})
                    disk = open(base + "/u", "rb").read()
                    ftp.perform(k, {"op": "PASV"})
                    b = ftp.perform(k, {"op": "RETR", "arg": arg("u")})
                    k.close()
                    ctx.traces += 1
                    if a["codes"] != [125, 226] or disk != data:
                        ctx.violation("big:stor", {"size": n, "fill": fill}, "stored file differs from the uploaded %d bytes (%s)" % (n, fill))
                    if b["codes"] != [125, 226] or b["data"] != data:
                        ctx.violation("big:retr", {"size": n, "fill": fill}, "downloaded data differs from the stored %d bytes (%s)" % (n, fill))
    finally:
        srv.stop()


def names(ctx, exe):
    """File names with blanks, dots, unicode, glob characters: stored, listed and fetched under their own name."""
    base = common.scratch("names", owner=common.NOBODY)
    srv = ftp.Server(exe, [a.replace("@ROOT@", base) for a in ftp.CLI_ARGV])
    NAMES = ["a b", " lead", ".hidden", "x..y", "...", "ünïcode-文", "semi;colon", "q'uote\"s", "100%", "-dash", "UPPER.low", "tab\tx", "a,b", "star*", "br[ack]et", "qm?"]
    try:
        k = session(srv)
        for i, n in enumerate(NAMES):
            data = ("data %d" % i).encode()
            ftp.perform(k, {"op": "PASV"})
            a = ftp.perform(k, {"op": "STOR", "arg": arg(n), "bytes": data})
            ftp.perform(k, {"op": "PASV"})
            b = ftp.perform(k, {"op": "RETR", "arg": arg(n)})
            ctx.traces += 1
            try:
                disk = open(base + "/" + n, "rb").read()
            except OSError:
                disk = None
            if a["codes"] != [125, 226] or disk != data or b["data"] != data:
                ctx.violation("names:roundtrip", {"name": n}, "file %r not stored and returned under its name: %r %r" % (n, a["codes"], b["codes"]))
        import os
        on_disk = sorted(os.listdir(base))
        for op in ("LIST", "NLST"):
            ftp.perform(k, {"op": "PASV"})
            r = ftp.perform(k, {"op": op, "arg": arg()})
            if op == "NLST":
                got = sorted(x.decode() for x in (r["data"] or b"").split(b"\r\n") if x)
            else:
                got = sorted(x.decode().split(" ", 8)[8] for x in (r["data"] or b"").split(b"\r\n") if x)
            if got != on_disk:
                ctx.violation("names:" + op, {"names": NAMES}, "%s shows %r, directory holds %r" % (op, got, on_disk))
        # a working directory with glob characters in its name
        for d in ("plain", "odd [x]", "st*r"):
            ftp.perform(k, {"op": "MKD", "arg": {"abs": True, "comps": [d]}})
            ftp.perform(k, {"op": "CWD", "arg": {"abs": True, "comps": [d]}})
            ftp.perform(k, {"op": "PASV"})
            ftp.perform(k, {"op": "STOR", "arg": arg("inner"), "bytes": b"1"})
            for op in ("LIST", "NLST"):
                ftp.perform(k, {"op": "PASV"})
                r = ftp.perform(k, {"op": op, "arg": arg()})
                got = [x[0] for x in ftp.parse_list(r["data"] or b"", op == "NLST")]
                if got != ["inner"]:
                    ctx.violation("names:cwd-" + op, {"dir": d}, "%s in directory %r shows %r, expected ['inner']" % (op, d, got))
        k.close()
    finally:
        srv.stop()
