"""P01: no FTP command touches files or a data connection before a successful login."""
from lib import common, ftp, ftpchecks as F

TABLES = {"users": (False, ["alice:pw", "bob:"]), "mixed": (True, ["alice:pw", "carol:pw2"])}
LOGIN = {"USER", "PASS"}


def judge(b):
    d, o, got = b["diff"], b["obs"], b["got"]
    auth = b["before"][1][o["c"]][0]
    if auth == "in" and o["cmd"]["op"] not in LOGIN:
        return None          # what a logged-in session may do is P02-P04's business
    if "died" in d:
        return None
    if "fs" in d or "outside" in d:
        return "effect: tree changed without login: " + str(d)
    if "data" in d or "leak" in d:
        return "data: " + str(d)
    if "codes" in d or "closed" in d or "hang" in d:
        if o["cmd"]["op"] in LOGIN or o["codes"] == [530]:
            return "login: " + str(d)
    return None


def run(ctx):
    host = ftp.install_cli(common.build_harness("ftphost"))
    seen = set()
    for table, (anon, users) in TABLES.items():
        g = F.graph(ctx, "MCFtpAuth", "Spec", anon=anon, extra=' Table = "%s"' % table)
        for e in g.edges:
            seen.add((g.states[e[0]][1]["c1"][0], e[1]["cmd"]["op"]))
        F.drive(ctx, g, ctx.pick(30000, None), judge, host, ["@ROOT@", "@HOST@", "@PORT@", "1" if anon else "0"] + users, prelogin=False, maxlen=120)
    g = F.graph(ctx, "MCFtpAuth", "Spec", anon=True, extra=' Table = "cli"')
    F.drive(ctx, g, ctx.pick(15000, None), judge, F.cli(), ftp.CLI_ARGV, prelogin=False, maxlen=120)
    for op in ("MKD", "STOR", "RETR", "LIST", "DELE", "RMD", "PASV"):
        for a in ("no", "wait", "in"):
            ctx.need((a, op) in seen, "%s never tried in login state %s" % (op, a))
    ctx.assumptions.append("user tables: password user, password-less user, anonymous on/off; the command line's fixed table")
