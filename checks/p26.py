"""P26: what a camera file says about its image (spec/Cameras.tla, CamTrace.tla)."""
import math
import random
import numpy as np
from lib import cams, common, rawhost


OPTIONS = [{"compression": "none"}, {"compression": "lossless", "predictor": 1}, {"compression": "lossless", "predictor": 7}]


def short(o):
    return {k: v for k, v in o.items() if k != "vals"}


def image(rec, j, out):
    v = np.frombuffer(out, "<u2")
    return {"ok": True, "make": j["clean_make"], "model": j["clean_model"], "w": j["w"], "h": j["h"],
            "pattern": "".join("RGBCMY??"[min(p, 7)] for p in j["photometric"]["pattern"]) if j["photometric"]["kind"] == "cfa" else "",
            "wb": [-1 if x is None or math.isnan(float(x)) else round(float(x) * 4096) for x in j["wb"]],
            "white": j["white"], "black": [n // d if n % d == 0 else -1 for n, d in j["black"]["levels"]], "grid": [j["black"]["w"], j["black"]["h"], j["black"]["cpp"]],
            "active": j["active"] or [], "crop": j["crop"] or [], "vals": [int(v[i]) if i < len(v) else -1 for i in rec["idx"]]}


def one(it, call):
    db, key, fmt, seed, known = it
    c = cams.Case(random.Random(seed), db, key, fmt)
    if not known:
        c.model = c.model[:-1] + ("#" if c.r.random() < .5 else c.model[-1] + "+")
    f = cams.WRITERS[fmt](c)
    rec = c.record(f)
    rec.update(known=known, mode="", dng={"ok": False}, dngwhy="")
    j, out = call({"op": "decode"}, f, 30)
    if rawhost.failed(j) or "died" in j or "hang" in j:
        rec["out"] = {"ok": False}
        return f, rec, j
    rec["out"] = image(rec, j, out)
    # the DNG file written from it
    r = random.Random(seed + 1)
    rec["mode"] = r.choice(["best", "best", "active", "none"])
    k, d = call({"op": "convert", "crop": rec["mode"], **r.choice(OPTIONS)}, f, 60)
    if not (rawhost.failed(k) or "died" in k or "hang" in k):
        k, out = call({"op": "decode"}, d, 30)
        if not (rawhost.failed(k) or "died" in k or "hang" in k):
            rec["dng"] = image(rec, k, out)
    rec["dngwhy"] = str(k)[:300]
    return f, rec, j


def run(ctx):
    pool = rawhost.Pool(8)
    db = cams.database(common.REPO)
    keys = [(k, cams.format_of(k, v)) for k, v in sorted(db.items())]
    keys = [(k, f) for k, f in keys if f]
    ctx.need(len(keys) > 500, "only %d cameras" % len(keys))
    items = [(db, k, f, ctx.rng.randrange(1 << 40)) for k, f in keys for _ in range(max(ctx.pick(2, 30), ctx.pick(60, 600) // sum(1 for x in keys if x[1] == f)))]
    items = [x + (True,) for x in items] + [(db, k, f, ctx.rng.randrange(1 << 40), False) for k, f in keys[::ctx.pick(6, 1)]]
    done = pool.map(one, items)
    for at in range(0, len(items), 4000):
        part = done[at:at + 4000]
        for x in common.validate("CamTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", [r for _, r, _ in part], ctx):
            f, rec, j = part[x["reject"] - 1]
            key = items[at + x["reject"] - 1][1]
            rec = {k: v for k, v in rec.items() if k not in ("data",)}
            ctx.violation("%s:%s" % (rec["fmt"], x["why"]), {"file": f.hex() if len(f) < 200000 else len(f), "camera": key, "facts": rec["f"], "out": rec["out"]},
                          "%s %r: %s; facts %r, decoded %r" % (rec["fmt"], key, x["why"], rec["f"], short(rec["out"]) if rec["out"]["ok"] else j) + ("; DNG (%s): %r" % (rec["mode"], short(rec["dng"]) if rec["dng"]["ok"] else rec["dngwhy"]) if x["why"][:4] in ("DNG:", "not ") else ""))
            if ctx.too_many():
                return
