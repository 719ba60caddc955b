"""P09: every source gets its own, predictably named output; the tree is mirrored; only raw files are taken."""
from lib import common, batch


def run(ctx):
    exe = common.build_cli()
    for cmd in ("convert", "process", "extract"):
        g, _ = batch.model(ctx, cmd, maxfiles=ctx.pick(2, 3) if cmd != "process" else 2, conc=ctx.pick("{2}", "{1, 2, 3}") if cmd == "convert" else "{1}", big="BigSets")

        def inter(s, o):
            return len(o) > 1 or len(s["files"]) > 2 or s["rec"] or s["target"]
        sel = batch.choose(ctx, g, ctx.pick(600, 8000), inter)
        if cmd != "extract":
            ctx.need(any(any("_1." in p and c.startswith("of:") for p, c in x["fs"].items()) for _, o in sel for x in o), "a name collision was resolved")
        batch.drive(ctx, exe, sel, {"tree", "hang"})
    ctx.assumptions.append("scenarios: up to 2 (thorough 3) source files of a pool of 18, plus fixed larger ones; directory order is the file system's own")
