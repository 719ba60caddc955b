"""P27: camera codecs (spec/Codecs.tla, MCCodecs.tla, CodecTrace.tla)."""
import random
import numpy as np
from lib import codecs, common, rawhost


def one(it, call):
    name, seed, w, h = it
    k, f, rec = codecs.ALL[name][0](random.Random(seed), w, h)
    j, out = call({"op": "unwrapped" if k is not None else "decode"}, f, 20)
    rec.update(w=w, h=h, out=[] if rawhost.failed(j) or "died" in j or "hang" in j else np.frombuffer(out, "<u2").tolist())
    return j, f, rec


def replay(x, call):
    op, f = codecs.emitted(x)
    j, out = call({"op": op}, f, 20)
    return j, f, [] if rawhost.failed(j) or "died" in j or "hang" in j else np.frombuffer(out, "<u2").tolist()


def run(ctx):
    pool = rawhost.Pool(8)
    # every small image, coded sample by sample by the model
    res = common.run_tlc("MCCodecs", "SPECIFICATION Spec\nINVARIANT RoundTrip\nCONSTRAINT Emit\nCONSTANT Jobs = {%s}\n" % ", ".join(map(str, range(1, 14 if ctx.quick else 17))), ctx=ctx)
    todo = list({(x["codec"], x["w"], x["h"], tuple(x["img"])): x for x in res.emitted}.values())
    ctx.need(len(todo) > 10000, "the model emitted only %d images" % len(todo))
    ctx.traces += len(todo)
    for x, (j, f, out) in zip(todo, pool.map(replay, todo)):
        if out != x["img"]:
            ctx.violation("%s:model" % x["codec"], {"codec": x["codec"], "file": f.hex(), "w": x["w"], "h": x["h"], "image": x["img"]},
                          "%s, %dx%d: the image %r is read as %r (%r)" % (x["codec"], x["w"], x["h"], x["img"], out, j))
            if ctx.too_many():
                return
    items = []
    for name, (fn, dw, dh) in codecs.ALL.items():
        for i in range(ctx.pick(50, 400)):
            w = dw * ctx.rng.randrange(1, max(2, min(48, ctx.pick(40, 64)) // dw + 1))
            h = dh * ctx.rng.randrange(1, max(2, ctx.pick(12, 40) // dh + 1))
            w = max(w, 2)
            items.append((name, ctx.rng.randrange(1 << 30), min(w, 64 - 64 % dw), min(h, 64)))
    recs, meta = [], []
    for it, (j, f, rec) in zip(items, pool.map(one, items)):
        recs.append(rec)
        meta.append((it, j, f))
    streams = {}
    for x in common.validate("CodecTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", recs, ctx):
        k = x["reject"] - 1
        it, j, f = meta[k]
        if x["why"] == "stream":
            streams[it[0]] = streams.get(it[0], 0) + 1
            continue
        ctx.violation("%s:%s" % (it[0], x["why"]), {"codec": it[0], "file": f.hex(), "w": it[2], "h": it[3]}, "%s, %dx%d: %s (%r)" % (it[0], it[2], it[3], x["why"], j))
        if ctx.too_many():
            return
    if streams:
        raise common.ToolError("writer and specification disagree: %r" % streams)
