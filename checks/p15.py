"""P15: the raster of a converted DNG is sample for sample the sensor data (spec/Layout.tla, MCLayout.tla, LayoutTrace.tla)."""
import os, subprocess
import numpy as np
from lib import common, dng, rawhost, tiff

CLI = {"none": "uncompressed", "lossless": "lossless"}


def image(rng, h, n, bps):
    """The image of LayoutTrace!V: n samples per row."""
    m = 1 << bps
    a, b, c, d = rng.randrange(m), rng.randrange(m), rng.randrange(m), rng.randrange(m)
    y, x = np.mgrid[0:h, 0:n].astype(np.int64)
    return (a * x + b * y + c + d * ((x * y) % 7)) % m, dict(a=a, b=b, c=c, d=d, m=m)


def geometry(f, i):
    w, h, cpp = i.one(256), i.one(257), i.one(277, 1)
    if 324 in i.ent:
        return dict(w=w, h=h, tw=i.one(322), th=i.one(323), cpp=cpp, strips=False)
    return dict(w=w, h=h, tw=w, th=i.one(278, h), cpp=cpp, strips=True)


def check_raster(data, want, cpp, photometric):
    """Why the file does not hold the samples (h, n), or None; with the record for TLC."""
    try:
        f = tiff.File(data)
        i = dng.find_raw(f)
        bl = []
        got = dng.raster(f, i, bl)
        g = geometry(f, i)
        if i.one(262) != photometric:
            return "photometric interpretation %d" % i.one(262), None
        if (g["h"], g["w"] * g["cpp"], g["cpp"]) != want.shape + (cpp,):
            return "dimensions %r" % g, None
        if want.dtype == np.float32:
            ok = got.dtype == np.float32 and np.array_equal(got.view(np.uint32), want.view(np.uint32))
        else:
            ok = i.one(339, 1) == 1 and np.array_equal(got, want)
        if want.dtype != np.float32 and int(want.max()) >= 1 << i.one(258):
            return "samples up to %d with BitsPerSample %d" % (want.max(), i.one(258)), None
        if not ok:
            return "samples differ at %r" % (np.argwhere(got != want)[:3].tolist(),), None
        # the blocks in the order of the file, with the geometry announced
        return None, (g, bl if want.dtype != np.float32 else None)
    except (tiff.Bad, IndexError, ValueError, KeyError) as e:
        return "unreadable raster: %r" % e, None


def record(rng, g, bl, par, probes):
    bl = [b for b in bl]
    pr = []
    for _ in range(probes):
        k = rng.randrange(len(bl))
        p = rng.choice([0, len(bl[k]) - 1, rng.randrange(len(bl[k])), rng.randrange(len(bl[k]))])
        pr.append([k, p, int(bl[k][p])])
    return dict(g=g, len=[len(b) for b in bl], probes=pr, **par)


def run(ctx):
    q = ctx.quick
    geoms = {}
    for c in ((5, 4, 4, 2), (7, 3, 3, 3)) if q else ((5, 4, 4, 2), (9, 3, 4, 3), (4, 9, 4, 3), (6, 6, 4, 1)):
        res = common.run_tlc("MCLayout", "SPECIFICATION Spec\nCONSTANTS MaxW=%d MaxH=%d MaxT=%d MaxC=%d\nINVARIANTS Once Complete Inverse\nCONSTRAINT Emit\n" % c, ctx=ctx)
        for x in res.emitted:
            geoms[tuple(sorted(x["g"].items()))] = x
    ctx.need(len(geoms) >= 800, "geometries")
    trace = []
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8) as EX, rawhost.Pool(12) as P:
        EX.submit(int).result()
        # the tiler and the tile writer on every small geometry
        tg = [x for x in geoms.values() if not x["g"]["strips"]]

        def tile(x, call):
            g = x["g"]
            w, h, cpp, tw, th = g["w"], g["h"], g["cpp"], g["tw"], g["th"]
            n = w * h * cpp
            j, out = call({"op": "tiles", "w": w, "h": h, "cpp": cpp, "tw": tw, "th": th}, np.arange(1, n + 1, dtype="<u2").tobytes())
            nx, ny = -(-w // tw), -(-h // th)
            ids = np.arange(1, sum(x["len"]) + 1, dtype="<u2")
            k, un = call({"op": "untile", "w": nx * tw, "h": ny * th, "cpp": cpp, "tw": tw, "th": th}, ids.tobytes())
            return j, np.frombuffer(out, "<u2"), k, np.frombuffer(un, "<u2")
        for x, (j, out, k, un) in zip(tg, P.map(tile, tg)):
            g = x["g"]
            w, h, cpp, tw, th = g["w"], g["h"], g["cpp"], g["tw"], g["th"]
            ctx.traces += 1
            rl, nx = tw * cpp, -(-w // tw)
            if rawhost.failed(j) or j["n"] != x["n"] or len(out) != sum(x["len"]):
                ctx.violation("tiler:count", g, "the tiler cuts %r into %r" % (g, j))
                continue
            par = dict(a=1, b=w * cpp, c=1, d=0, m=65536)   # the sample numbers themselves, starting from 1
            bl = [out[i * th * rl:(i + 1) * th * rl] for i in range(x["n"])]
            trace.append(dict(g=g, len=[len(b) for b in bl], probes=[[i, p, int(b[p])] for i, b in enumerate(bl) for p in range(len(b))], **par))
            # written through mutable tiles: block after block
            want = np.zeros((-(-h // th) * th, nx * rl), np.int64)
            nxt = 1
            for b in range(x["n"]):
                ty, tx = b // nx, b % nx
                want[ty * th:(ty + 1) * th, tx * rl:(tx + 1) * rl] = np.arange(nxt, nxt + th * rl).reshape(th, rl)
                nxt += th * rl
            if rawhost.failed(k) or not np.array_equal(un.reshape(want.shape), want):
                ctx.violation("tiles:writer", g, "blocks are not put back where they belong: %r %r" % (g, k))
            if ctx.too_many():
                return
        # sizes around one and several 256 tiles, strips with the 100/256 row rules
        dims = [1, 2, 3, 7, 16, 99, 100, 101, 254, 255, 256, 257, 258, 300, 511, 512, 513, 768, 770]
        jobs = []
        for pred in range(1, 8):
            for ph, cpp in (("cfa", 1), ("cfa6", 1), ("linear", 3), ("linear", 1), ("mono", 1)):
                for comp in ("lossless", "none"):
                    if comp == "none" and pred > 1:
                        continue
                    for _ in range(ctx.pick(4, 16)):
                        w, h = ctx.rng.choice(dims), ctx.rng.choice(dims)
                        while w * h > ctx.pick(300, 800) ** 2:
                            w, h = ctx.rng.choice(dims), ctx.rng.choice(dims)
                        jobs.append((w, h, ph, cpp, comp, pred, ctx.rng.choice([2, 8, 10, 12, 13, 14, 15, 16, 16]), ctx.rng.choice(["best", "active", "none"]), "u16", ctx.rng.choice(["none", "noise", "ext"])))
        for ph, cpp in (("cfa", 1), ("linear", 3), ("linear", 1), ("mono", 1)):
            for comp in ("lossless", "none"):
                for _ in range(ctx.pick(3, 20)):
                    jobs.append((ctx.rng.choice(dims[:14]), ctx.rng.choice(dims[:14]), ph, cpp, comp, ctx.rng.randint(1, 7), 32, "best", "f32", "float"))
        seeds = [ctx.rng.randrange(1 << 30) for _ in jobs]

        def write(it, call):
            import random
            (w, h, ph, cpp, comp, pred, bps, crop, kind, fill), seed = it
            rng = random.Random(seed)
            nr = np.random.default_rng(seed)
            par = None
            n = w * cpp
            white = [(1 << min(bps, 16)) - 1] * cpp
            if kind == "f32":
                white = [rng.choice([1, 1, 1000, 65535, 16383])] * cpp
                a = (nr.random((h, n)) * rng.choice([1, 1, 1.25]) * white[0]).astype(np.float32)
                if comp == "none":
                    a.reshape(-1)[::7] = nr.integers(0, 1 << 32, a.reshape(-1)[::7].shape, dtype=np.uint32).view(np.float32)
            elif fill == "noise":
                a = nr.integers(0, 1 << bps, (h, n))
            elif fill == "ext":
                a = nr.integers(0, 2, (h, n)) * ((1 << bps) - 1)
            else:
                a, par = image(rng, h, n, bps)
            area = None
            if crop != "none" and rng.random() < .6 and w > 4 and h > 4:
                x, y = rng.randrange(0, w // 2), rng.randrange(0, h // 2)
                area = [x, y, rng.randrange(1, w - x + 1), rng.randrange(1, h - y + 1)]
            cfa = "RGGB" if ph != "cfa6" else "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"
            head = {"op": "writedng", "w": w, "h": h, "cpp": cpp, "bps": bps, "make": "Acme", "model": "X", "cfa": cfa if ph.startswith("cfa") else "", "photometric": ph[:3] if ph.startswith("cfa") else ph,
                    "matrix": [[21, [1, 0, 0, 0, 1, 0, 0, 0, 1]]], "white": white, "wb": [2, 1, 1.5], "active": area, "data": kind, "crop": crop, "compression": comp, "predictor": pred, "root": rng.random() < .5,
                    "black": {"levels": [[0, 1]] * cpp, "w": 1, "h": 1, "cpp": cpp}}
            j, s = call(head, a.astype("<f4" if kind == "f32" else "<u2").tobytes(), 60)
            if rawhost.failed(j):
                return head, j, "failed: %r" % j, None, s
            want = a
            if kind == "f32" and comp == "lossless":
                sc = np.float32(65535) / np.float32(white[0])
                v = a * sc
                want = np.clip(np.trunc(v), 0, 65535).astype(np.int64)
            err, geo = EX.submit(check_raster, bytes(s), want, cpp, {"c": 32803, "l": 34892, "m": 1}[ph[0]]).result()
            if err is None:
                k, px = call({"op": "decode"}, bytes(s), 60)
                if rawhost.failed(k):
                    err = "the own decoder fails: %r" % k
                else:
                    back = np.frombuffer(px, "<f4" if k["data"] == "f32" else "<u2").reshape(h, n)
                    if back.dtype != (np.float32 if want.dtype == np.float32 else np.uint16) or back.tobytes() != want.astype(back.dtype).tobytes():
                        err = "the own decoder reads other samples"
            rec = None
            if err is None and par is not None and geo:
                rec = record(rng, geo[0], geo[1], par, 40)
            return head, j, err, rec, s
        for (job, seed), (head, j, err, rec, s) in zip(zip(jobs, seeds), P.map(write, list(zip(jobs, seeds)))):
            ctx.traces += 1
            if err:
                ctx.violation("raster:%s:%s" % (job[8], job[4]), {"job": list(job), "seed": seed, "head": head}, "%s, %dx%d %s cpp %d predictor %d %d bit: %s" % (job[4], job[0], job[1], job[2], job[3], job[5], job[6], err))
            if rec:
                trace.append(rec)
            if ctx.too_many():
                return
        # the whole way: a DNG of known samples is converted (library, every option)
        cj = []
        for k in range(ctx.pick(250, 2000)):
            rng = ctx.rng
            w, h = rng.choice([1, 2, 6, 31, 100, 101, 255, 256, 257, 300]), rng.choice([1, 2, 6, 31, 100, 101, 255, 256, 257, 300])
            ph = rng.choice(["cfa", "cfa", "linear", "mono"])
            cpp = 3 if ph == "linear" and rng.random() < .7 else 1
            bps = rng.choice([8, 10, 12, 14, 16, 16])
            px, par = image(rng, h, w * cpp, bps)
            more = {}
            if k % 5 == 4 and bps < 16:
                # stored through a linearization table: the samples are 16 bit values
                t = np.sort(np.random.default_rng(rng.randrange(1 << 40)).integers(0, 65536, 1 << bps))
                more = dict(extra={50712: (tiff.SHORT, [int(x) for x in t])})
                par = None
            src = dng.make(px.reshape(h, w, cpp) if cpp > 1 else px, e=rng.choice("<>"), bps=bps, photometric={"cfa": 32803, "linear": 34892, "mono": 1}[ph],
                           layout=rng.choice([("strips", 0), ("strips", 16), ("tiles", (64, 32))]), white=[65535 if more else (1 << bps) - 1] * cpp, sub=rng.random() < .8, **more)
            opt = dict(compression=rng.choice(["none", "lossless"]), predictor=rng.randint(1, 7), crop=rng.choice(["best", "active", "none"]), thumbnail=rng.random() < .5,
                       preview=rng.random() < .2 and min(w, h) > 8, embedded=rng.random() < .2)
            cj.append((src, px, par, opt, ph, cpp, bps))

        def conv(it, call):
            src, px, par, opt, ph, cpp, bps = it
            j, out = call(dict(op="convert", **opt), src, 120)
            if rawhost.failed(j):
                return "failed: %r" % j, None
            if par is None:
                k, raw = call({"op": "decode"}, src, 60)
                if rawhost.failed(k):
                    return "the decoder fails: %r" % k, None
                px = np.frombuffer(raw, "<u2").reshape(px.shape).astype(np.int64)
            return EX.submit(check_raster, bytes(out), px, cpp, {"cfa": 32803, "linear": 34892, "mono": 1}[ph]).result()
        for it, (err, geo) in zip(cj, P.map(conv, cj)):
            src, px, par, opt, ph, cpp, bps = it
            ctx.traces += 1
            case = dict(opt=opt, photometric=ph, shape=px.shape, bps=bps, src=src.hex() if len(src) < 20000 else None)
            if err:
                ctx.violation("convert:%s" % opt["compression"], case, "conversion %r of a %r %s image with %d bit: %s" % (opt, px.shape, ph, bps, err))
            elif geo and par:
                trace.append(record(ctx.rng, geo[0], geo[1], par, 20))
            if ctx.too_many():
                return
    # the command itself
    exe = common.build_cli()
    d = common.scratch("p15", common.NOBODY)
    for k in range(ctx.pick(8, 60)):
        rng = ctx.rng
        w, h = rng.choice([2, 30, 255, 257]), rng.choice([2, 30, 100, 101, 257])
        px, par = image(rng, h, w, 16)
        open(d + "/in%d.dng" % k, "wb").write(dng.make(px, white=[65535]))
        comp, pred, crop = rng.choice(list(CLI)), rng.randint(1, 7), rng.choice(["best", "activearea", "none"])
        a = [exe, "convert", "--compression", CLI[comp], "--ljpeg92-predictor", str(pred), "--crop", crop, "--embed-raw", "false", d + "/in%d.dng" % k, d + "/out%d.dng" % k]
        r = subprocess.run(a, preexec_fn=common.demote, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env={"PATH": "/usr/bin:/bin", "HOME": d, "TZ": "UTC"})
        err = "exit %d: %s" % (r.returncode, r.stdout[-300:]) if r.returncode or not os.path.exists(d + "/out%d.dng" % k) else None
        geo = None
        if err is None:
            data = open(d + "/out%d.dng" % k, "rb").read()
            err, geo = check_raster(data, px, 1, 32803)
            i = dng.find_raw(tiff.File(data)) if err is None else None
            if err is None and i.one(259) != {"none": 1, "lossless": 7}[comp]:
                err = "compression %d" % i.one(259)
        ctx.traces += 1
        if err:
            ctx.violation("command:%s" % comp, {"args": a[1:], "shape": px.shape, "par": par}, "dnglab %s: %s" % (" ".join(a[1:]), err))
        elif geo:
            trace.append(record(rng, geo[0], geo[1], par, 20))
    ctx.need(len(trace) >= 400, "rasters")
    for i in range(0, len(trace), 4000):
        part = trace[i:i + 4000]
        for x in common.validate("LayoutTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", part, ctx):
            ctx.violation("trace:" + x["why"].split()[0], part[x["reject"] - 1], "the specification rejects the raster: %s" % x["why"])
            if ctx.too_many():
                return
    ctx.sample({k: v for k, v in trace[-1].items() if k != "len"})
    ctx.count("geometries", len(geoms))
    ctx.count("written", len(jobs))
    ctx.count("converted", len(cj))
    ctx.count("rasters_validated_by_tlc", len(trace))
