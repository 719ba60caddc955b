"""P17: every DNG that is written has the structure every reader relies on (spec/DngTrace.tla)."""
import os, random, struct, subprocess
import numpy as np
from lib import common, dng, rawhost, tiff
from lib.tiff import ASCII, BYTE, SHORT, LONG, RATIONAL, SRATIONAL, UNDEF, FLOAT, DOUBLE

M3 = [6722, -635, -963, -4287, 12460, 2028, -908, 2162, 5668]


def jpeg_info(b):
    """(kind, w, h, comps, prec) of a JPEG stream that ends with its end marker."""
    bad = ("other", 0, 0, 0, 0)
    if b[:2] != b"\xff\xd8" or len(b) < 4:
        return bad
    p, out = 2, None
    while p + 4 <= len(b):
        if b[p] != 0xff:
            return bad
        m = b[p + 1]
        n = struct.unpack_from(">H", b, p + 2)[0]
        if m in (0xc0, 0xc1, 0xc2, 0xc3):
            out = ("ljpeg" if m == 0xc3 else "jpeg",) + struct.unpack_from(">HH", b, p + 5)[::-1] + (b[p + 9], b[p + 4])
        if m == 0xda:
            break
        p += 2 + n
    else:
        return bad
    if out is None or b.rstrip(b"\0")[-2:] != b"\xff\xd9":
        return bad
    return out


def clip(v):
    return max(-2147483647, min(int(v), 2147483647))


def record(data):
    """The structure of a file, for TLC."""
    try:
        f = tiff.File(data)
    except tiff.Bad as e:
        return dict(problem=str(e), size=len(data), ranges=[], dirs=[])
    dirs = []

    def walk(p, role):
        t = p.one(254) if 254 in p.ent else None
        if 262 in p.ent or 273 in p.ent or 324 in p.ent:
            role = "raw" if t == 0 else "thumbnail" if p.one(259) == 1 else "preview"
        ents, blocks = [], []
        for tag in sorted(p.ent):
            e = p.ent[tag]
            v = []
            if e.typ in (5, 10):
                v = [clip(x) for q in e.v[:2000] for x in q]
            elif e.typ in (1, 3, 4, 6, 8, 9):
                v = [clip(x) for x in e.v[:5000]]
            ents.append(dict(tag=tag, typ=e.typ, cnt=e.n, v=v, pos=e.off if len(e.raw) > 4 else 0, last=e.raw[-1] if e.raw else -1))
        for to, tb in ((273, 279), (324, 325)):
            if to in p.ent and tb in p.ent:
                for o, n in zip(p.get(to), p.get(tb)):
                    k, w, h, c, pr = jpeg_info(data[o:o + n]) if p.one(259) == 7 else ("plain", 0, 0, 0, 0)
                    blocks.append(dict(len=n, kind=k, w=w, h=h, comps=c, prec=pr))
        dirs.append(dict(role=role, off=p.off, next=p.next, ents=ents, blocks=blocks))
        for tag, l in p.sub.items():
            for x in l:
                walk(x, {34665: "exif", 34853: "gps"}.get(tag, "sub"))
    for r in f.roots:
        walk(r, "root")
    return dict(problem="; ".join(f.problems), size=len(data), ranges=sorted([a, b] for a, b, _ in f.extents), dirs=dirs)


def rat(rng, d=1000):
    return (rng.randrange(1, 3 * d), d)


def source(seed):
    """A DNG source with random features, and conversion options."""
    rng = random.Random(seed)
    nr = np.random.default_rng(seed)
    ph = rng.choice(["cfa", "cfa", "cfa", "cfa6", "linear", "mono"])
    cpp = rng.choice([3, 3, 1]) if ph == "linear" else 1
    w, h = rng.choice([12, 13, 40, 100, 101, 257, 300]), rng.choice([12, 17, 40, 99, 101, 256, 260])
    bps = rng.choice([8, 10, 12, 14, 16, 16, 32])
    a = nr.random((h, w, cpp)).astype(np.float32) if bps == 32 else nr.integers(0, 1 << bps, (h, w, cpp))
    k = dict(e=rng.choice("<>"), bps=bps, photometric={"c": 32803, "l": 34892, "m": 1}[ph[0]], sub=rng.random() < .8,
             layout=rng.choice([("strips", 0), ("strips", 16), ("tiles", (64, 32))]), orientation=rng.randint(1, 8))
    if ph == "cfa6":
        k["cfa"] = (6, 6, bytes(dict(R=0, G=1, B=2)[c] for c in "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"))
    elif ph == "cfa":
        k["cfa"] = (2, 2, bytes(rng.choice([[0, 1, 1, 2], [1, 0, 2, 1], [1, 2, 0, 1], [2, 1, 1, 0]])))
    top = left = 0
    bottom, right = h, w
    if rng.random() < .6:
        top, left = rng.randrange(0, h // 3), rng.randrange(0, w // 3)
        bottom, right = rng.randrange(h - h // 3, h + 1), rng.randrange(w - w // 3, w + 1)
        k["active"] = [top, left, bottom, right]
    if rng.random() < .5:
        x, y = rng.randrange(0, (right - left) // 2), rng.randrange(0, (bottom - top) // 2)
        k["crop"] = [x, y, rng.randrange(1, right - left - x + 1), rng.randrange(1, bottom - top - y + 1)]
    one = 1 if bps == 32 else (1 << bps) - 1
    if rng.random() < .7:
        k["white"] = [rng.choice([one, max(1, one - rng.randrange(one // 8 + 1))])] * cpp
    if rng.random() < .6 and bps != 32:
        rep = rng.choice([(1, 1), (2, 2), (1, 2), (2, 1)]) if cpp == 1 else (1, 1)
        n = rep[0] * rep[1] * cpp
        k["blackrep"] = list(rep)
        k["black"] = [(rng.randrange(0, one // 4 * 10 + 1), 10) for _ in range(n)] if rng.random() < .5 else [rng.randrange(0, one // 4 + 1) for _ in range(n)]
    extra, root = {}, {}
    if cpp == 1 and ph[0] != "c":
        k["neutral"] = None
        k["matrix"] = None
    if rng.random() < .3:
        extra[50718] = (RATIONAL, rng.choice([[(1, 1), (2, 1)], [(1, 1), (1, 1)], [(10, 9), (10, 9)]]))
    if rng.random() < .3:
        extra[50780] = (RATIONAL, [(rng.choice([1, 4]), 3)])
    if rng.random() < .2 and "active" in k:
        extra[50830] = (LONG, [0, 0, h, max(1, left)])
    if rng.random() < .2 and bps != 32:
        extra[50715] = (SRATIONAL, [(rng.randrange(-9, 9), 10)] * (right - left))
        extra[50716] = (SRATIONAL, [(rng.randrange(-9, 9), 10)] * (bottom - top))
    if rng.random() < .3:
        extra[51041] = (DOUBLE, [1e-4, 2e-7])
    if rng.random() < .5:
        root[50730] = (SRATIONAL, [(rng.randrange(-200, 200), 100)])
        root[50731] = (RATIONAL, [(13, 10)])
        root[50734] = (RATIONAL, [(1, 1)])
    if rng.random() < .3:
        root[50781] = (BYTE, bytes(rng.randrange(256) for _ in range(16)))
    if rng.random() < .3:
        root[33432] = (ASCII, rng.choice(["x", "abc", "(c) Somebody, 2024"]))
    if rng.random() < .3:
        root[315] = (ASCII, rng.choice(["x", "abc", "Somebody Else"]))
    if rng.random() < .2 and "matrix" not in k:
        root[50722] = (SRATIONAL, [(x + 7, 10000) for x in M3])
        root[50779] = (SHORT, 17)
        root[50964] = (SRATIONAL, [(x, 10000) for x in M3])
    if rng.random() < .2 and cpp == 1 and ph == "cfa":
        k["neutral"] = None
        root[50729] = (RATIONAL, [(3127, 10000), (3290, 10000)])
    if rng.random() < .6:
        k["exif"] = {33434: (RATIONAL, [(1, rng.randrange(1, 4000))]), 33437: (RATIONAL, [(28, 10)]), 34855: (SHORT, rng.randrange(50, 9999)), 36867: (ASCII, "2023:01:02 03:04:05"), 37386: (RATIONAL, [(50, 1)]), 42036: (ASCII, "L" * rng.randrange(1, 9))}
        if rng.random() < .4:
            k["exif"][37500] = (UNDEF, bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 5, 77]))))
    if rng.random() < .4:
        k["gps"] = {0: (BYTE, bytes([2, 3, 0, 0])), 1: (ASCII, "N"), 2: (RATIONAL, [(48, 1), (8, 1), (1, 3)]), 5: (BYTE, bytes([0])), 29: (ASCII, "2023:01:02"), 27: (UNDEF, b"ASCII\0\0\0GPS")}
    src = dng.make(a if cpp > 1 else a[:, :, 0], extra=extra, rootextra=root, **k)
    opt = dict(compression=rng.choice(["none", "lossless"]), predictor=rng.randint(1, 7), crop=rng.choice(["best", "active", "none"]), thumbnail=rng.random() < .5, preview=rng.random() < .4,
               embedded=rng.random() < .4, scale=rng.random() < .1, name=rng.choice(["a.nef", "x", "photo 1.dng", "abc"]))
    if rng.random() < .3:
        opt["artist"] = rng.choice(["me", "abc", "Jane Doe"])
    return src, opt, dict(photometric=ph, cpp=cpp, w=w, h=h, bps=bps, active=k.get("active"), crop=k.get("crop"))


def image(seed):
    """An image for the DNG writer itself."""
    rng = random.Random(seed)
    nr = np.random.default_rng(seed)
    ph = rng.choice(["cfa", "cfa", "cfa4", "cfa6", "linear3", "linear4", "linear1", "mono"])
    cpp = int(ph[6]) if ph[:6] == "linear" else 1
    w, h = rng.choice([1, 2, 3, 12, 40, 100, 255, 257]), rng.choice([1, 2, 3, 17, 40, 99, 101, 257])
    kind = rng.choice(["u16", "u16", "u16", "f32"])
    bps = 32 if kind == "f32" else rng.choice([8, 10, 12, 14, 16])
    cfa = {"cfa": "RGGB", "cfa4": rng.choice(["RGEB", "ERBG", "GMYC"]), "cfa6": "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"}.get(ph, "")
    one = 1 if kind == "f32" else (1 << bps) - 1
    area = crop = None
    x = y = 0
    aw, ah = w, h
    if rng.random() < .5:
        x, y = rng.randrange(0, (w + 1) // 2), rng.randrange(0, (h + 1) // 2)
        aw, ah = rng.randrange(1, w - x + 1), rng.randrange(1, h - y + 1)
        area = [x, y, aw, ah]
    if rng.random() < .5:
        cx, cy = rng.randrange(0, aw), rng.randrange(0, ah)
        crop = [x + cx, y + cy, rng.randrange(1, aw - cx + 1), rng.randrange(1, ah - cy + 1)]
    rep = rng.choice([(1, 1), (2, 2)]) if cpp == 1 else (1, 1)
    n = rep[0] * rep[1] * cpp
    head = {"op": "writedng", "w": w, "h": h, "cpp": cpp, "bps": 16 if kind == "f32" else bps, "make": "Acme", "model": rng.choice(["X", "abc", "Model T"]), "cfa": cfa, "planes": {"R": "RGBE", "E": "RGBE", "G": "GMCY"}[cfa[0]] if ph == "cfa4" else "RGB",
            "photometric": "cfa" if ph[:3] == "cfa" else "linear" if ph[0] == "l" else "mono", "matrix": [[21, [1, 0, 0, 0, 1, 0, 0, 0, 1] + ([.1, .2, .3] if ph in ("cfa4", "linear4") else [])]] if ph not in ("mono", "linear1") else [],
            "white": [one] * cpp, "wb": [2, 1, 1.5, 1.0] if ph in ("cfa4", "linear4") else [2, 1, 1.5], "active": area, "crop_area": crop, "data": kind, "crop": rng.choice(["best", "active", "none"]),
            "compression": rng.choice(["none", "lossless"]), "predictor": rng.randint(1, 7), "root": rng.random() < .5, "orientation": rng.randint(1, 8),
            "black": {"levels": [[rng.randrange(0, one // 4 + 1) if one > 1 else 0, 1] for _ in range(n)], "w": rep[1], "h": rep[0], "cpp": cpp}}
    a = nr.random((h, w * cpp)).astype("<f4") if kind == "f32" else nr.integers(0, one + 1, (h, w * cpp)).astype("<u2")
    return head, a.tobytes(), dict(photometric=ph, w=w, h=h, kind=kind, bps=bps)


def run(ctx):
    recs, cases = [], []
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8) as EX, rawhost.Pool(12) as P:
        EX.submit(int).result()
        jobs = [("convert", ctx.rng.randrange(1 << 40)) for _ in range(ctx.pick(700, 8000))] + [("write", ctx.rng.randrange(1 << 40)) for _ in range(ctx.pick(500, 8000))]

        def one(it, call):
            kind, seed = it
            if kind == "convert":
                src, opt, info = EX.submit(source, seed).result()
                j, out = call(dict(opt, op="convert"), src, 120)
                info = dict(info, opt=opt)
            else:
                head, px, info = EX.submit(image, seed).result()
                j, out = call(head, px, 120)
                info = dict(info, head={k: v for k, v in head.items() if k not in ("matrix", "op")})
            if rawhost.failed(j):
                return info, None, "failed: %r" % j
            return info, EX.submit(record, bytes(out)).result(), None
        failed = 0
        for (kind, seed), (info, rec, err) in zip(jobs, P.map(one, jobs)):
            info = dict(info, seed=seed, by=kind)
            if err:
                failed += 1
                ctx.violation("%s:failed" % kind, info, "%r: %s" % (info, err))
                if ctx.too_many():
                    return
                continue
            recs.append(dict(rec, whole=kind == "convert"))
            cases.append(info)
    # the command, with its own defaults
    exe = common.build_cli()
    d = common.scratch("p17", common.NOBODY)
    for k in range(ctx.pick(6, 40)):
        src, opt, info = source(ctx.rng.randrange(1 << 40))
        open(d + "/in%d.dng" % k, "wb").write(src)
        a = [exe, "convert"] + ctx.rng.choice([[], ["--embed-raw", "false"], ["--dng-thumbnail", "false"], ["--dng-preview", "false"], ["--crop", "none"]]) + [d + "/in%d.dng" % k, d + "/out%d.dng" % k]
        r = subprocess.run(a, preexec_fn=common.demote, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env={"PATH": "/usr/bin:/bin", "HOME": d, "TZ": "UTC"})
        if r.returncode:
            ctx.violation("command:failed", dict(info, args=a[1:]), "dnglab %s: exit %d: %s" % (" ".join(a[1:]), r.returncode, r.stdout[-300:]))
            continue
        recs.append(dict(record(open(d + "/out%d.dng" % k, "rb").read()), whole=True))
        cases.append(dict(info, args=a[1:], by="command"))
    ctx.need(len(recs) > 500, "files")
    for i in range(0, len(recs), 3000):
        part = recs[i:i + 3000]
        for x in common.validate("DngTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", part, ctx):
            c = cases[i + x["reject"] - 1]
            ctx.violation("%s:%s" % (c["by"], x["why"]), c, "%s in a file made from %r" % (x["why"], c))
            if ctx.too_many():
                return
    ctx.sample(cases[0])
    ctx.count("files", len(recs))
