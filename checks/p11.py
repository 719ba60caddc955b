"""P11: the exit status and the summary tell exactly what happened, and one bad file never harms the others."""
import os, subprocess
from lib import common, batch, dng


def usage(ctx, exe, table):
    ctx.need(len(table) == 9, "usage table")
    for row in table:
        for cmd in ("convert", "process-raw", "extract"):
            d = common.scratch("usage")
            os.chown(d, common.NOBODY, common.NOBODY)
            good = dng.make(batch.pattern("in/a.nef"))
            if row["in"] == "file":
                x = batch.source_bytes("extract", {"cls": "good", "orig": "o.nef"}, "in/a.dng") if cmd == "extract" else good
                open(d + "/i", "wb").write(x)
            elif row["in"] == "dir":
                os.makedirs(d + "/i")
            if row["out"] == "file":
                open(d + "/o", "wb").write(b"old")
            elif row["out"] == "dir":
                os.makedirs(d + "/o")
                os.chown(d + "/o", common.NOBODY, common.NOBODY)
            r = subprocess.run([exe, cmd, "i", "o"], cwd=d, user=common.NOBODY, group=common.NOBODY, extra_groups=[], capture_output=True, timeout=60)
            exp = row["exit"]
            if row["in"] == "file" and row["out"] == "file" and cmd == "extract":
                exp = 6
            ctx.traces += 1
            if r.returncode != exp:
                ctx.violation("usage:%s:%s:%s" % (cmd, row["in"], row["out"]), {"row": row, "cmd": cmd, "err": r.stderr.decode()[-500:]},
                              "%s with input=%s output=%s exits %d, expected %d" % (cmd, row["in"], row["out"], r.returncode, exp))


def run(ctx):
    exe = common.build_cli()
    table = []
    for cmd in ("convert", "process", "extract"):
        g, u = batch.model(ctx, cmd, maxfiles=ctx.pick(2, 3) if cmd != "process" else 2, conc=ctx.pick("{1, 3}", "{1, 2, 3}") if cmd == "convert" else "{1}", big="BigSets")
        table = u or table

        def inter(s, o):
            return any(0 < x["ok"] < x["total"] for x in o) or any(x["total"] - x["ok"] > 1 for x in o)
        sel = batch.choose(ctx, g, ctx.pick(600, 8000), inter)
        codes = {x["exit"] for _, o in sel for x in o}
        ctx.need({0, 6} <= codes and len(codes) >= 4, "several kinds of failures (%r)" % codes)
        batch.drive(ctx, exe, sel, {"account", "hang"})
    seen = {(r["in"], r["out"]): r for r in table}
    usage(ctx, exe, list(seen.values()))
