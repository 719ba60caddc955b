"""P12: the input files of a run come out of it unchanged, whatever the options and the outcome."""
from lib import common, batch


def run(ctx):
    exe = common.build_cli()
    for cmd in ("convert", "process", "extract"):
        g, _ = batch.model(ctx, cmd, maxfiles=ctx.pick(2, 3) if cmd != "process" else 2, conc=ctx.pick("{2}", "{1, 3}") if cmd == "convert" else "{1}", big=ctx.pick("NoSets", "BigSets"))
        linked = lambda s: s["force"] and any(q["kind"] == "link" or q["kind"].startswith("src:") for q in s["pre"])
        inter = lambda s, o: s["same"] and (s["force"] or s["rec"]) and any(x["total"] for x in o)
        sel = batch.choose(ctx, [x for x in g if not linked(x[0])], ctx.pick(500, 8000), inter) + batch.choose(ctx, [x for x in g if linked(x[0])], ctx.pick(100, 1000))
        ctx.need(sum(1 for s, o in sel if s["force"] and s["same"] and any(f["ext"].lower() == "dng" for f in s["files"])) > 20 or cmd == "process", "outputs that collide with inputs")
        ctx.need(sum(1 for s, o in sel if linked(s)) > 20, "outputs that are links to inputs")
        batch.drive(ctx, exe, sel, {"input", "hang"})
