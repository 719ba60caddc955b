"""P05: FTP replies depend only on the byte stream, not on how it is cut into segments."""
import socket, time
from concurrent.futures import ThreadPoolExecutor
from lib import common, ftp, ftpchecks as F

TEXT = {"N": b"NOOP", "P": b"PWD", "p": b"pwd", "Y": b"SyST", "x": b"XYZ", "s": b" ", "r": b"\r", "n": b"\n"}
CFG = """SPECIFICATION Spec
CONSTANTS
 Symbols = {%s}
 MaxLen = %d
INVARIANTS SegmentationIndependent NothingLost EmitStream
"""


def chunkings(data, rng, k):
    yield [data]
    yield [data[i:i + 1] for i in range(len(data))]
    # every CR LF torn apart
    out, cur = [], b""
    for i in range(len(data)):
        cur += data[i:i + 1]
        if data[i:i + 1] == b"\r":
            out.append(cur)
            cur = b""
    yield out + [cur]
    for _ in range(k):
        cuts = sorted(rng.sample(range(1, len(data)), min(len(data) - 1, rng.randint(1, 6))))
        yield [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]


def talk(conn, chunks, n, pause):
    for c in chunks:
        if c:
            conn.send(c)
            if pause and len(chunks) > 1:
                time.sleep(pause)
    got = []
    try:
        while len(got) < n:
            r = conn.reply()
            if r is None:
                got.append("closed")
                break
            got.append(r[0])
    except socket.timeout:
        got.append("hang")
    return got


def run(ctx):
    exe = F.cli()
    syms = '"N", "P", "p", "x", "s", "r", "n"'
    res = common.run_tlc("FtpLine", CFG % (syms, ctx.pick(4, 5)), ctx)
    streams = [e for e in res.emitted if "stream" in e]
    ctx.need(len(streams) > 2000, "too few streams")
    # keep the ones with something torn: CR or LF inside, at least one command
    interesting = [s for s in streams if ("r" in s["stream"][:-5] or "n" in s["stream"][:-5])]
    pick = ctx.rng.sample(interesting, min(len(interesting), ctx.pick(700, 9000))) + ctx.rng.sample(streams, ctx.pick(100, 1000))
    base = common.scratch("line", owner=common.NOBODY)
    srv = ftp.Server(exe, [a.replace("@ROOT@", base) for a in ftp.CLI_ARGV])

    def work(part):
        import random
        rng = random.Random(repr((ctx.seed, part[0]["stream"])))
        conn = None
        bad, n = [], 0
        for s in part:
            data = b"".join(TEXT[t] for t in s["stream"])
            for chunks in chunkings(data, rng, ctx.pick(1, 3)):
                if conn is None:
                    conn = ftp.Conn(srv)
                    conn.reply()
                    for c in ftp.LOGIN:
                        ftp.perform(conn, c)
                got = talk(conn, chunks, len(s["replies"]), 0.0008)
                # a further reply would answer bytes that were not a command
                conn.send(b"FEAT\r\n")
                try:
                    r = conn.reply()
                except socket.timeout:
                    r = (-2, b"hang")
                n += 1
                if got != s["replies"] or r is None or r[0] != 211:
                    bad.append((data, chunks, got, s["replies"], None if r is None else r[0]))
                    conn.close()
                    conn = None
                    if len(bad) > 3:
                        return n, bad
        if conn:
            conn.close()
        return n, bad
    try:
        with ThreadPoolExecutor(24) as ex:
            parts = [pick[i::24] for i in range(24)]
            for n, bad in ex.map(work, [p for p in parts if p]):
                ctx.traces += n
                for data, chunks, got, exp, nxt in bad:
                    ctx.violation("segmentation", {"bytes": repr(data), "chunks": [repr(c) for c in chunks], "replies": got, "expected": exp, "after": nxt},
                                  "stream %r cut as %r: replies %r, expected %r" % (data, [len(c) for c in chunks], got, exp))
        ctx.sample({"stream": pick[0]["stream"], "replies": pick[0]["replies"]})
        # long lines: 1 KiB .. 1 MiB in uneven pieces
        for size in (1000, 8190, 8191, 8192, 8193, 70000, ctx.pick(300000, 3000000)):
            line = b"XYZ " + b"a" * size + b"\r\nNOOP\r\n"
            for step in (len(line), 4096, 1461):
                conn = ftp.Conn(srv)
                conn.reply()
                got = talk(conn, [line[i:i + step] for i in range(0, len(line), step)], 2, 0)
                conn.close()
                ctx.traces += 1
                if got != [500, 200]:
                    ctx.violation("longline", {"size": size, "step": step}, "line of %d bytes in pieces of %d: replies %r, expected [500, 200]" % (size, step, got))
    finally:
        srv.stop()
    ctx.assumptions.append("segments are separate TCP writes with TCP_NODELAY; the kernel may still merge some of them")
