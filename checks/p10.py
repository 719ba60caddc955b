"""P10: a job that fails - undecodable input, panic, full disk at any byte - leaves no partial output; success means complete output."""
import os, shutil
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from lib import common, batch, dng, tiff


def diskfull(ctx, exe, npoints):
    res = common.run_tlc("DiskFull", """SPECIFICATION Spec
CONSTANTS MaxSize = %d MaxBuf = 4
INVARIANTS AllOrNothing Verdict
PROPERTIES Ends
CONSTRAINT Emit
""" % ctx.pick(8, 16), ctx=ctx)
    verdict = {}
    for e in res.emitted:
        verdict.setdefault((e["size"], e["quota"]), set()).add((e["exit"], e["file"]))
    ctx.need(all(len(v) == 1 for v in verdict.values()) and len(verdict) > 50, "verdicts")
    N = ctx.pick(8, 16)
    base = common.scratch("quota")
    f = {"dir": "", "stem": "a", "ext": "nef", "cls": "good", "orig": "x.nef"}
    fx = {"dir": "", "stem": "a", "ext": "dng", "cls": "good", "orig": "x.nef"}
    variants = [("convert", ["--dng-preview", "false", "--dng-thumbnail", "false", "--embed-raw", "false", "-c", "uncompressed"], f),
                ("convert", ["--dng-preview", "true", "--dng-thumbnail", "true", "--embed-raw", "true", "-c", "lossless"], f),
                ("convert", ["--keep-mtime", "true", "--dng-preview", "false", "--dng-thumbnail", "true", "--embed-raw", "true", "-c", "lossless"], f),
                ("process", [], f), ("process", ["--keep-mtime", "true"], f), ("extract", [], fx), ("extract", ["--skipchecks"], fx)]

    def runit(tag, cmd, opts, f, limit, pre):
        scn = {"cmd": cmd, "mode": "dir", "same": False, "target": "", "conc": 1, "force": pre, "rec": False, "skip": False}
        w = batch.World(exe, scn, [f], [], "%s/%s" % (base, tag))
        os.makedirs(w.base)
        w.build()
        a = {"convert": ["convert"], "process": ["process-raw"], "extract": ["extract"]}[cmd]
        w.argv = lambda extra=(): [exe] + a + opts + (["-f"] if pre else []) + ["in", "out"]
        if pre:
            open(w.base + "/out/" + {"convert": "a.dng", "process": "a.tif", "extract": "x.nef"}[cmd], "wb").write(batch.OLD)
            os.chown(w.base + "/out/" + {"convert": "a.dng", "process": "a.tif", "extract": "x.nef"}[cmd], common.NOBODY, common.NOBODY)
        o = w.run(limit=limit)
        names = sorted(os.listdir(w.base + "/out"))
        sizes = {n: os.path.getsize(w.base + "/out/" + n) for n in names}
        src = w.fs0 and o["fs"].get(batch.path_of(f)) == w.fs0.get(batch.path_of(f))
        w.remove()
        return o, sizes, src
    batch.learn_reference(exe, [f])
    jobs = []
    for vi, (cmd, opts, ff) in enumerate(variants):
        o, sizes, _ = runit("full%d" % vi, cmd, opts, ff, None, False)
        if o["exit"] != 0 or len(sizes) != 1:
            raise common.ToolError("reference run failed: %r" % (o,))
        size = list(sizes.values())[0]
        pts = {0, 1, 7, 8, 9, size - 1, size, size + 1, size // 2, size - 8192, size - 8193, size - 4, 8191, 8192, 8193, 16384}
        pts |= {size - 1 - k for k in (2, 16, 100, 300, 511)}
        while len(pts) < npoints:
            pts.add(ctx.rng.randrange(size + 1))
        for p in sorted(x for x in pts if 0 <= x <= size + 1):
            jobs.append((vi, cmd, opts, ff, size, p, (p % 5 == 0)))

    def go(i):
        vi, cmd, opts, ff, size, p, pre = jobs[i]
        return runit("j%d" % i, cmd, opts, ff, p, pre)
    with ThreadPoolExecutor(8) as ex:
        for (vi, cmd, opts, ff, size, p, pre), (o, sizes, src) in zip(jobs, ex.map(go, range(len(jobs)))):
            # abstract to the model: Size = N units, Quota = room in the same proportion (only >= matters)
            q = N + 1 if p > size else N if p == size else min(N - 1, p * N // size)
            ((code, file),) = verdict[(N, q)]
            ctx.traces += 1
            ctx.count("disk_full_runs")
            case = {"cmd": cmd, "opts": opts, "size": size, "room": p, "exit": o["exit"], "left": sizes, "err": o["err"]}
            if code and o["exit"] == 0:
                ctx.violation("full:success:" + cmd, case, "%s: output needs %d bytes, the disk takes %d, yet the run reports success" % (cmd, size, p))
            elif code and sizes:
                ctx.violation("full:left:" + cmd, case, "%s: failed after %d of %d bytes and left %r behind" % (cmd, p, size, sizes))
            elif code and o["failed"] != [batch.path_of(ff)]:
                ctx.violation("full:summary:" + cmd, case, "%s: failed file not reported: %r" % (cmd, o["failed"]))
            elif not code and (o["exit"] != 0 or list(sizes.values()) != [size]):
                ctx.violation("full:spurious:" + cmd, case, "%s: enough room (%d for %d bytes) but exit %r, left %r" % (cmd, p, size, o["exit"], sizes))
            if not src:
                ctx.violation("full:input:" + cmd, case, "%s: input changed" % cmd)
            if ctx.too_many():
                break


def run(ctx):
    exe = common.build_cli()
    for cmd in ("convert", "process", "extract"):
        g, _ = batch.model(ctx, cmd, maxfiles=ctx.pick(2, 3) if cmd != "process" else 2, conc=ctx.pick("{3}", "{1, 3}") if cmd == "convert" else "{1}", big=ctx.pick("NoSets", "BigSets"))
        inter = lambda s, o: any(x["total"] - x["ok"] > 0 and x["exit"] in (2, 4, 7) for x in o)
        sel = batch.choose(ctx, g, ctx.pick(400, 6000), inter)
        batch.drive(ctx, exe, sel, {"partial", "hang"})
    diskfull(ctx, exe, ctx.pick(36, 600))
    ctx.assumptions.append("a full disk is simulated with RLIMIT_FSIZE (EFBIG at the byte); power loss and SIGKILL are outside of the property")
