"""The FTP properties P01-P06 share one specification (spec/Ftp.tla) and one replayer."""
import os, random
from . import common, ftp

BASE = """CONSTANTS
 Clients = {clients}
 Anonymous = {anon}
 Users <- mcUsers
 Commands <- mcCommands
 InitFs <- mcInit
 LinkTarget <- mcLinks
 Contents <- mcContents
 MaxSteps = 0
{extra}
VIEW View
INVARIANTS EmitInit Contained NoLeak CwdInside EscapeRefused OneFinal DataOnlyOnSuccess
PROPERTIES AuthGate OnlyRightPassword RefusalInert Isolation StoreExact
ACTION_CONSTRAINT EmitEdge
"""


def graph(ctx, module, spec, clients=("c1",), anon=True, extra=""):
    cfg = "SPECIFICATION %s\n" % spec + BASE.format(clients="{" + ", ".join('"%s"' % c for c in clients) + "}", anon="TRUE" if anon else "FALSE", extra=extra)
    res = common.run_tlc(module, cfg, ctx)
    g = ftp.Graph(res.emitted)
    fresh = [["in", "anonymous", [], False, "none", True], ["no", "", [], False, "none", True]]
    init = [i for i, s in enumerate(g.states) if s[0] == [] and all(v in fresh for v in s[1].values())]
    # the initial state is the one without incoming history: prefer the all-"no" state if present
    no = [i for i in init if all(v == fresh[1] for v in g.states[i][1].values())]
    g.initial = (no or init)[0]
    return g


def drive(ctx, g, total, judge, exe, argv, per_class=2, prelogin=True, maxlen=300, cls=None, **kw):
    """Replay (a cover of) the graph against the implementation; judge decides which differences concern this property."""
    cls = cls or (lambda g, e: (str(e[1]["c"]), str(sorted(e[1]["cmd"].items(), key=str)), str(e[1]["codes"]), e[1]["data"]["k"], str(g.states[e[0]][1][e[1]["c"]])))
    if total is None or total >= len(g.edges):
        targets, ncls = set(range(len(g.edges))), None
    else:
        targets, ncls = ftp.stratify(g, per_class, total, ctx.rng, cls)
    walks, left = ftp.plan_walks(g, g.initial, targets, maxlen, ctx.rng)
    if left:
        raise common.ToolError("%d edges of the model unreachable in planning" % left)
    steps, done, bad = ftp.replay_parallel(g, walks, exe, argv, prelogin=prelogin, **kw)
    ctx.traces += done
    ctx.count("model_edges", len(g.edges))
    ctx.count("edges_selected_for_replay", len(targets))
    ctx.count("implementation_steps", steps)
    if walks:
        w = ctx.rng.choice(walks)
        ctx.sample({"behaviour": [[g.edges[e][1]["c"], g.edges[e][1]["cmd"], g.edges[e][1]["codes"]] for e in w[:12]]})
    other = 0
    for b in bad:
        why = judge(b)
        if why:
            ctx.violation("ftp:" + b["obs"]["cmd"]["op"] + ":" + why.split(":")[0], b, "%s after %r in state %r: %s" % (b["obs"]["cmd"], [h[1]["op"] for h in b["history"][-6:]], b["before"], why))
        else:
            other += 1
    ctx.count("mismatches_of_other_properties", other)
    return steps


def cli():
    return ftp.install_cli(common.build_cli())
