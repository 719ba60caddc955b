"""P08: nothing that exists is overwritten unless -f was given, also under races."""
import os, shutil, subprocess, threading
from lib import common, batch, dng, tiff


def race(ctx, exe, rounds):
    """Many processes want the same output name at the same moment, without -f: exactly one gets it, the others report it."""
    base = common.scratch("race")
    srcs = []
    for k in range(6):
        p = "in/r%d.nef" % k
        srcs.append((p, dng.make(batch.pattern(p))))
    for r in range(rounds):
        cmd = ("convert", "process-raw", "convert")[r % 3]
        d = "%s/%d" % (base, r)
        os.makedirs(d + "/in")
        os.makedirs(d + "/out")
        for p, b in srcs:
            open(d + "/" + p, "wb").write(b)
        for x in (d, d + "/in", d + "/out"):
            os.chown(x, common.NOBODY, common.NOBODY)
        ext = "dng" if cmd == "convert" else "tif"
        opts = ["-c", "uncompressed", "--dng-preview", "false", "--dng-thumbnail", "false", "--embed-raw", "false"] if cmd == "convert" else []
        ps = [subprocess.Popen([exe, cmd] + opts + [p, "out/same." + ext], cwd=d, user=common.NOBODY, group=common.NOBODY, extra_groups=[],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env={"PATH": "/usr/bin:/bin"}) for p, _ in srcs]
        try:
            codes = [q.wait(timeout=120) for q in ps]
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            raise common.ToolError("race round did not end")
        ctx.traces += 1
        ctx.count("race_rounds")
        case = {"cmd": cmd, "codes": codes, "files": os.listdir(d + "/out")}
        if codes.count(0) != 1 or any(c not in (0, 6) for c in codes):
            ctx.violation("race:codes:" + cmd, case, "exit codes %r: exactly one process may win the output name, the others must report that it exists (6)" % codes)
        elif os.listdir(d + "/out") != ["same." + ext]:
            ctx.violation("race:files:" + cmd, case, "output directory holds %r" % os.listdir(d + "/out"))
        elif cmd == "convert":
            t = tiff.File(open(d + "/out/same.dng", "rb").read())
            w = srcs[codes.index(0)][0]
            if not (dng.raster(t, dng.find_raw(t)) == batch.pattern(w)).all():
                ctx.violation("race:content:" + cmd, case, "the output is not the one of the process that reported success")
        shutil.rmtree(d, ignore_errors=True)
        if ctx.too_many():
            return


def run(ctx):
    exe = common.build_cli()
    for cmd in ("convert", "process", "extract"):
        g, _ = batch.model(ctx, cmd, maxfiles=ctx.pick(2, 3) if cmd != "process" else 2, conc=ctx.pick("{2}", "{1, 3}") if cmd == "convert" else "{1}", big=ctx.pick("NoSets", "BigSets"))
        inter = lambda s, o: s["pre"] and not s["force"] and any(x["exit"] == 6 for x in o)
        sel = batch.choose(ctx, g, ctx.pick(500, 6000), inter)
        ctx.need(sum(1 for s, o in sel if any(x["exit"] == 6 for x in o)) > 60, "existing outputs met")
        batch.drive(ctx, exe, sel, {"clobber", "hang"})
    # the interleaved exploration with a foreign process that creates one of the outputs
    for cmd in ("convert", "process", "extract"):
        g, _ = batch.model(ctx, cmd, maxfiles=ctx.pick(1, 2), racer=True)
        g = [x for x in g if not x[0]["force"] and not x[0]["pre"]]
        sel = batch.choose(ctx, g, ctx.pick(80, 1500), lambda s, o: any("theirs" in batch.asrec(x["fs"]).values() for x in o))
        batch.drive_race(ctx, exe, sel, {"clobber", "hang"})
        ctx.need(ctx.extra.get("races_" + cmd, 0) > 20, "races " + cmd)
    race(ctx, exe, ctx.pick(24, 400))
    ctx.assumptions.append("exclusive creation is provided by the file system (O_EXCL)")
