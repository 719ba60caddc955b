"""P30: the developed picture (spec/Develop.tla, MCDevelop.tla, DevelopTrace.tla)."""
import json
import os
import random
import subprocess
import numpy as np
from lib import common, dng, rawhost, tiff

SRGB = np.array([[0.4124564, 0.3575761, 0.1804375], [0.2126729, 0.7151522, 0.0721750], [0.0193339, 0.1191920, 0.9503041]])
WHITES = {17: (1.0985, 1, .35585), 18: (.99072, 1, .85223), 19: (.98074, 1, 1.18232), 20: (.95682, 1, .92149), 22: (.94972, 1, 1.22638), 23: (.96422, 1, .82521)}
D65 = (.95047, 1, 1.08883)
XTRANS = "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"
BAYERS = ([0, 1, 1, 2], [2, 1, 1, 0], [1, 0, 2, 1], [1, 2, 0, 1])


def bradford(white):
    """colours as seen under D65 to colours as seen under another white"""
    b = np.array([[.8951, .2664, -.1614], [-.7502, 1.7135, .0367], [.0389, -.0685, 1.0296]])
    return np.linalg.inv(b) @ np.diag((b @ np.array(white)) / (b @ np.array(D65))) @ b


def unlzw(b):
    """TIFF LZW"""
    out, table, code, bits, n, prev = bytearray(), [], 0, 0, 9, None
    for byte in b:
        code = code << 8 | byte
        bits += 8
        if bits < n:
            continue
        bits -= n
        c = code >> bits
        code &= (1 << bits) - 1
        if c == 256:
            table, n, prev = [bytes([k]) for k in range(256)] + [b"", b""], 9, None
            continue
        if c == 257:
            return bytes(out)
        if prev is None:
            s = table[c]
        else:
            s = table[c] if c < len(table) else prev + prev[:1]
            table.append(prev + s[:1])
            if len(table) >= (1 << n) - 1 and n < 12:
                n += 1
        out += s
        prev = s
    raise tiff.Bad("LZW data without end")


def picture(data):
    """the picture in a TIFF file: w, h, samples per pixel, rows"""
    f = tiff.File(data)
    i = f.roots[0]
    w, h, spp, comp = i.one(256), i.one(257), i.one(277), i.one(259)
    if list(i.get(258)) != [16] * spp or comp != 5 or i.one(262) != (1 if spp == 1 else 2) or i.one(284, 1) != 1 or i.one(317, 1) != 1:
        raise tiff.Bad("picture format")
    rps, rows = i.one(278), []
    offs, cnts = i.get(273), i.get(279)
    if len(offs) != -(-h // rps) or len(cnts) != len(offs):
        raise tiff.Bad("strips")
    for k, (o, n) in enumerate(zip(offs, cnts)):
        if o + n > len(data):
            raise tiff.Bad("strip behind the end")
        part = unlzw(data[o:o + n])
        part = np.frombuffer(part, "<u2" if f.e == "<" else ">u2")
        want = min(rps, h - k * rps)
        if part.size != want * w * spp:
            raise tiff.Bad("strip of %d samples for %d rows" % (part.size, want))
        rows += part.reshape(want, w * spp).tolist()
    return {"w": w, "h": h, "spp": spp, "data": rows}


def curve():
    """light of each output value in units of 1/5,000,000: the inverse of the sRGB curve"""
    y = np.arange(65537) / 65535.0
    return np.rint(np.where(y <= 0.04045, y / 12.92, ((y + 0.055) / 1.055) ** 2.4) * 5000000).astype(int).tolist()


def matrix(r, n):
    """what the camera's colours measure of red, green, blue light, in hundredths; white gives the same in all"""
    k = r.random()
    if n == 3 and k < .35:
        p = r.choice([(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1)])
        return [[100 if j == p[i] else 0 for j in range(3)] for i in range(3)]
    while True:
        m = []
        for i in range(n):
            a, b = r.randrange(-20, 60), r.randrange(-20, 60)
            row = [0, 0, 0]
            k = min(i, 3) % 3
            row[(k + 1) % 3], row[(k + 2) % 3] = a, b
            if i == 3:
                row = [r.randrange(20, 50), r.randrange(20, 50), 0]
                row[2] = 0
                row[2] = 100 - sum(row)
            else:
                row[k] = 100 - a - b
            m.append(row)
        a = np.array(m) / 100
        s = np.linalg.svd(a, compute_uv=False)
        if s[-1] > .35 and a.max() <= 1.5:
            return m


def case(r, geo=None):
    """a source: the record of the specification and its DNG file"""
    kind = geo["x"]["kind"] if geo else r.choice(["cfa", "cfa", "cfa", "linear", "mono"])
    sensor, n = "", 3
    x = {"cfa": {"w": 1, "h": 1, "pat": [0]}}
    if geo:
        w, h, active, crop, mode = geo["x"]["w"], geo["x"]["h"], geo["x"]["active"], geo["x"]["crop"], geo["mode"]
        if kind == "cfa":
            sensor, x["cfa"] = "bayer", geo["x"]["cfa"]
    else:
        w, h = r.randrange(8, 24), r.randrange(8, 24)
        if r.random() < .03:
            w, h = r.choice([(9, 300), (8, 257), (8, 256), (10, 513)]) if kind != "cfa" else (8, 257)
        mode = r.choice(["best", "best", "activearea", "none"])
        active = crop = []
        aw, ah = w, h
        if r.random() < .75:
            t, l = r.randrange(0, 4), r.randrange(0, 4)
            active = [t, l, h - r.randrange(0, 3), w - r.randrange(0, 3)]
            aw, ah = active[3] - l, active[2] - t
        if r.random() < .75:
            a, b = r.randrange(0, 3), r.randrange(0, 3)
            crop = [a, b, aw - a - r.randrange(0, 3 if aw > 6 else 1), ah - b - r.randrange(0, 3 if ah > 6 else 1)]
        if kind == "cfa":
            k = r.random()
            if k < .55:
                sensor, x["cfa"] = "bayer", {"w": 2, "h": 2, "pat": r.choice(BAYERS)}
            elif k < .75:
                p = np.array(["RGB".index(c) for c in XTRANS]).reshape(6, 6)
                p = np.roll(np.roll(p, r.randrange(6), 0), r.randrange(6), 1)
                sensor, x["cfa"] = "xtrans", {"w": 6, "h": 6, "pat": p.reshape(-1).tolist()}
            else:
                sensor, n = "bayer", 4
                x["cfa"] = {"w": 2, "h": 2, "pat": r.sample(range(4), 4)}
    cpp = 3 if kind == "linear" else 1
    bw, bh = r.choice([(1, 1), (1, 1), (2, 2), (2, 1), (1, 2), (3, 2)])
    if kind == "linear":
        bw = bh = 1
    top = r.choice([4095, 16383, 65535])
    black = [r.choice([0, r.randrange(top // 8)]) for _ in range(bw * bh * cpp)]
    white = [top - r.randrange(top // 6) for _ in range(cpp)]
    m = matrix(r, n)
    wb = [r.choice([(1, 1), (2, 1), (3, 2), (5, 4), (16, 7), (1, 2)]) for _ in range(n)] if r.random() < .8 else [(1, 1)] * n
    neutral = None if kind == "mono" or wb == [(1, 1)] * n and r.random() < .5 else [(d, k) for k, d in wb]
    x.update(w=w, h=h, kind=kind, sensor=sensor, active=active, crop=crop, cpp=cpp, black={"w": bw, "h": bh, "l": black}, white=white, wb=[list(v) for v in wb], m=m, mode=mode, noise=0)
    # the scene: light of red, green, blue at each site
    style = r.choice(["one", "halves", "any"]) if n == 3 else r.choice(["one", "halves"])
    if kind == "cfa" and sensor == "bayer" and not geo and r.random() < .3:
        style, top = "ramp", max(top, 16383)
        black = [min(v, 2000) for v in black]
        white = [top - r.randrange(top // 6)]
        wb = [r.choice([(1, 1), (5, 4)]) if n == 3 else (1, 1) for _ in range(n)]
        neutral = [(d, k) for k, d in wb]
        x.update(black={"w": bw, "h": bh, "l": black}, white=white, wb=[list(v) for v in wb])
    x["plain"] = n == 3 and all(sorted(row) == [0, 0, 100] for row in m)
    x["flat"], x["ramp"] = style not in ("any", "ramp"), []
    rg = np.random.default_rng(r.randrange(1 << 40))
    scene = rg.uniform(.02, .4, (h, w, 3)) if style == "any" else np.broadcast_to(rg.uniform(.02, .5, (1, 1, 3)), (h, w, 3)).copy()
    if style == "halves":
        cut = r.randrange(2, max(3, w - 1))
        scene[:, cut:] = rg.uniform(.02, .5, (1, 1, 3))
        if r.random() < .5:
            scene[r.randrange(1, h):] = rg.uniform(.02, .5, (1, 1, 3))
    if kind == "mono":
        lin = rg.choice([rg.uniform(0, 1.1, (h, w)), rg.uniform(0, .02, (h, w))])[:, :, None]
    else:
        cam = scene @ (np.array(m) / 100).T / np.array([k / d for k, d in wb])
        if n == 4 and (cam.min() < .001 or cam.max() > .98):  # four values clipped are of no three lights
            scene = np.broadcast_to(rg.uniform(.1, .3, (1, 1, 3)).mean(axis=2, keepdims=True), scene.shape)
            cam = scene @ (np.array(m) / 100).T / np.array([k / d for k, d in wb])
        if kind == "linear":
            lin = cam
        else:
            at = active or [0, 0]
            yy, xx = np.mgrid[0:h, 0:w]
            pat = np.array(x["cfa"]["pat"]).reshape(x["cfa"]["h"], x["cfa"]["w"])
            col = pat[(yy - at[0]) % x["cfa"]["h"], (xx - at[1]) % x["cfa"]["w"]]
            if style == "ramp":
                x["ramp"] = [r.randrange(-20000, 20001) // (1 + n // 20) for n in (h, w)]
                first = [.3 * d / k + r.uniform(-.03, .03) for k, d in wb] if n == 3 else [.3 * d / k for k, d in wb]
                cam = np.array(first)[None, None, :] + ((yy - h / 2) * x["ramp"][0] + (xx - w / 2) * x["ramp"][1])[:, :, None] / 5e6
            lin = np.take_along_axis(cam, col[:, :, None], 2)
    at = active or [0, 0]
    yy, xx = np.mgrid[0:h, 0:w]
    bl = np.array(black).reshape(bh, bw, cpp)[(yy - at[0]) % bh, (xx - at[1]) % bw]
    px = np.clip(np.rint(bl + lin * (np.array(white) - bl)), 0, 65535).astype(int)
    # samples are whole numbers: four colours of one light agree within that only
    if n == 4 or style == "ramp":
        x["noise"] = int(100 * 5000000 * 3 * 3 / (top * .7))
    x["data"] = px.reshape(h, w * cpp).tolist()
    xyz = (np.array(m) / 100) @ np.linalg.inv(SRGB)
    mat = [(int(round(v * 10 ** 7)), 10 ** 7) for v in xyz.reshape(-1)]
    junk = [(r.randrange(-9000, 9000), 10000) for _ in mat]
    root, illum = {}, 21
    if n == 3 and r.random() < .3:
        # a matrix for another light only: what it is given is adapted to that light (Bradford)
        illum = r.choice(sorted(WHITES))
        mat = [(int(round(v * 10 ** 7)), 10 ** 7) for v in (xyz @ np.linalg.inv(bradford(WHITES[illum]))).reshape(-1)]
    elif r.random() < .4:
        root = {50722: (tiff.SRATIONAL, junk), 50779: (tiff.SHORT, r.choice([17, 20, 23]))}
        if r.random() < .5:
            root = {50722: (tiff.SRATIONAL, mat), 50779: (tiff.SHORT, 21)}
            mat, illum = junk, r.choice([17, 20, 23])
    extra = {}
    if kind == "cfa":
        ids = [0, 1, 2] if n == 3 else r.choice([[0, 1, 2, 3], [3, 4, 5, 1], [1, 3, 4, 5]])
        extra = {50710: (tiff.BYTE, bytes(ids))}
        fix = bytes(ids[v] for v in x["cfa"]["pat"])
    data = dng.make(px if cpp == 3 else px[:, :, 0], e=r.choice("<>"), photometric={"cfa": 32803, "linear": 34892, "mono": r.choice([34892, 1])}[kind],
                    cfa=(x["cfa"]["w"], x["cfa"]["h"], fix if kind == "cfa" else b""), active=active or None, crop=crop or None, black=black, blackrep=[bh, bw],
                    white=white, neutral=neutral, matrix=None if kind == "mono" else mat, illum=illum, rootextra=root, extra=extra, sub=r.random() < .6)
    return x, data


def run(ctx):
    pool = rawhost.Pool(8)
    fams = [("4", "4", "2", '{"cfa"}'), ("3", "4", "2", '{"linear", "mono"}')] + ctx.pick([], [("5", "5", "3", '{"cfa"}'), ("6", "4", "3", '{"cfa", "linear"}')])
    geos, seen = [], set()
    for w, h, k, kinds in fams:
        m = common.run_tlc("MCDevelop", "SPECIFICATION Spec\nCONSTANTS W = %s\nH = %s\nLeast0 = %s\nKinds = %s\nINVARIANTS Shown Coloured\nCONSTRAINT Emit\n" % (w, h, k, kinds), ctx=ctx)
        for g in m.emitted:
            key = json.dumps(g, sort_keys=True)
            if key not in seen:
                seen.add(key)
                geos.append(g)
    ctx.need(len(geos) > 2000, "only %d geometries" % len(geos))
    ctx.rng.shuffle(geos)
    geos = geos[:ctx.pick(1500, 12000)]
    base = common.scratch("develop")
    seeds = [ctx.rng.randrange(1 << 40) for _ in range(len(geos) + ctx.pick(900, 9000))]

    def one(it, call):
        k, seed = it
        r = random.Random(seed)
        x, data = case(r, geos[k] if k < len(geos) else None)
        p = "%s/%d.dng" % (base, k)
        open(p, "wb").write(data)
        j, out = call({"op": "process", "file": p, "crop": {"activearea": "active"}.get(x["mode"], x["mode"])}, b"", 60)
        os.unlink(p)
        x.update(ok=False, out={"w": 0, "h": 0, "spp": 0, "data": []})
        why = str(j)[:300]
        if not (rawhost.failed(j) or "died" in j or "hang" in j):
            try:
                x.update(ok=True, out=picture(out))
            except (tiff.Bad, KeyError, IndexError) as e:
                why = "%s: %s" % (type(e).__name__, e)
        return x, why
    done = pool.map(one, list(enumerate(seeds)))
    # the program's own options
    exe = common.build_cli()
    a, b = common.scratch("developin", common.NOBODY), common.scratch("developout", common.NOBODY)
    cli = []
    for mode in ("best", "activearea", "none", ""):
        for k in range(ctx.pick(6, 30)):
            r = random.Random(ctx.rng.randrange(1 << 40))
            x, data = case(r)
            x["mode"] = mode or "best"
            open("%s/%s%d.dng" % (a, mode, k), "wb").write(data)
            cli.append((mode, k, x))
        os.makedirs("%s/%s" % (b, mode), exist_ok=True)
        os.chmod("%s/%s" % (b, mode), 0o777)
    for mode in ("best", "activearea", "none", ""):
        for _, k, x in [c for c in cli if c[0] == mode]:
            o = "%s/%s/o%d.tif" % (b, mode, k)
            p = subprocess.run([exe, "process-raw"] + (["--crop", mode] if mode else []) + ["%s/%s%d.dng" % (a, mode, k), o], user=common.NOBODY, group=common.NOBODY, extra_groups=[],
                               capture_output=True, timeout=120, env={"PATH": "/usr/bin:/bin", "HOME": b}, cwd=b)
            x.update(ok=False, out={"w": 0, "h": 0, "spp": 0, "data": []})
            if p.returncode == 0 and os.path.exists(o):
                try:
                    x.update(ok=True, out=picture(open(o, "rb").read()))
                except (tiff.Bad, KeyError, IndexError):
                    pass
            done.append((x, "status %d %s" % (p.returncode, p.stderr[-200:])))
    table = common.scratch("curve") + "/curve.ndjson"
    open(table, "w").write(json.dumps(curve()) + "\n")
    os.environ["CURVE"] = table
    for at in range(0, len(done), 3000):
        part = done[at:at + 3000]
        for v in common.validate("DevelopTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", [x for x, _ in part], ctx):
            x, why = part[v["reject"] - 1]
            ctx.violation(v["why"], x, "%s: %s; %s %s %dx%d active %s crop %s mode %s; got %dx%d" % (v["why"], why, x["kind"], x["sensor"], x["w"], x["h"], x["active"], x["crop"], x["mode"], x["out"]["w"], x["out"]["h"]))
            if ctx.too_many():
                return
