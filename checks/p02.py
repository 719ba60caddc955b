"""P02: the FTP server never reads or changes anything outside the served directory."""
from lib import ftpchecks as F

SAMPLE = True


def judge(b):
    d, o, got = b["diff"], b["obs"], b["got"]
    if "outside" in d:
        return "outside: " + d["outside"]
    if "leak" in d:
        return "leak: " + d["leak"]
    if o["esc"] and ("codes" in d or "data" in d) and got["codes"] and got["codes"][-1] < 400:
        return "escape honoured: replies %r, data %r (model: %r)" % (got["codes"], got["data"], o["codes"])
    return None


def run(ctx):
    exe = F.cli()
    g = F.graph(ctx, "MCFtpFs", "mcSpecIn", extra=" Small = %s" % ("TRUE" if ctx.quick else "FALSE"))
    ctx.need(sum(1 for e in g.edges if e[1]["esc"]) > 500, "no escaping arguments explored")
    F.drive(ctx, g, ctx.pick(40000, None), judge, exe, F.ftp.CLI_ARGV)
    # a served directory reached through a symlink
    F.drive(ctx, g, ctx.pick(3000, 20000), judge, exe, F.ftp.CLI_ARGV, root_arg="symlink", per_class=1)
    ctx.assumptions += ["server and replayer on Linux; links are static (no concurrent re-linking by third parties during one command)",
                        "universe: two-level trees, one sibling directory whose name extends the root's name, links to outside directory/file/dangling"]
