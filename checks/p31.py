"""P31: makedng (spec/MakeDng.tla, MCMakeDng.tla, MakeTrace.tla)."""
import os
import random
import struct
import subprocess
import zlib
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from lib import common, dng, tiff

LIGHTS = {"Unknown": 0, "A": 17, "B": 18, "C": 19, "D50": 23, "D55": 20, "D65": 21, "D75": 22}
NAMED = {"XYZ_sRGB_D50": [31338561, -16168667, -4906146, -9787684, 19161415, 334540, 719453, -2289914, 14052427],
         "XYZ_sRGB_D65": [32404542, -15371385, -4985314, -9692660, 18760108, 415560, 556434, -2040259, 10572252],
         "XYZ_AdobeRGB_D50": [19624274, -6105343, -3413404, -9787684, 19161415, 334540, 286869, -1406752, 13487655],
         "XYZ_AdobeRGB_D65": [20413690, -5649464, -3446944, -9692660, 18760108, 415560, 134474, -1183897, 10154096]}


def png(px, bits):
    h, w = px.shape[:2]
    rows = b"".join(b"\0" + (px[y].astype(">u2").tobytes() if bits == 16 else px[y].astype(np.uint8).tobytes()) for y in range(h))
    c = lambda k, d: struct.pack(">I", len(d)) + k + d + struct.pack(">I", zlib.crc32(k + d))
    return b"\x89PNG\r\n\x1a\n" + c(b"IHDR", struct.pack(">IIBBBBB", w, h, bits, 2, 0, 0, 0)) + c(b"IDAT", zlib.compress(rows)) + c(b"IEND", b"")


def grey(w, h):
    c = lambda k, d: struct.pack(">I", len(d)) + k + d + struct.pack(">I", zlib.crc32(k + d))
    return b"\x89PNG\r\n\x1a\n" + c(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 0, 0, 0, 0)) + c(b"IDAT", zlib.compress((b"\0" + b"\7" * w) * h)) + c(b"IEND", b"")


def tif(px, bits, e):
    h, w = px.shape[:2]
    i = tiff.Ifd({256: (tiff.LONG, w), 257: (tiff.LONG, h), 258: (tiff.SHORT, [bits] * 3), 259: (tiff.SHORT, 1), 262: (tiff.SHORT, 2), 277: (tiff.SHORT, 3), 278: (tiff.LONG, h)})
    i.strips = [px.astype(e + "u2").tobytes() if bits == 16 else px.astype(np.uint8).tobytes()]
    return tiff.build([i], e)


def jpeg(iso, xmp, e):
    sub = tiff.Ifd({34855: (tiff.SHORT, iso)})
    root = tiff.Ifd({271: (tiff.ASCII, b"Acme\0")})
    root.subs[34665] = [sub]
    seg = lambda m, d: b"\xff" + bytes([m]) + struct.pack(">H", len(d) + 2) + d
    out = b"\xff\xd8" + seg(0xe1, b"Exif\0\0" + tiff.build([root], e))
    if xmp:
        out += seg(0xe1, b"http://ns.adobe.com/xap/1.0/\0" + xmp)
    return out + b"\xff\xd9"


def source(r, kind, used):
    while True:
        w, h = r.randrange(2, 14), r.randrange(2, 14)
        if (w, h) not in used:
            used.add((w, h))
            break
    rg = np.random.default_rng(r.randrange(1 << 40))
    x = {"kind": kind, "w": w, "h": h, "cpp": 3, "data": [], "colour": [], "iso": r.randrange(1, 65536), "artist": [], "xmp": []}
    if kind == "dng":
        cfa = r.random() < .6
        px = rg.integers(0, 65536, (h, w) if cfa else (h, w, 3))
        x["cpp"], x["data"] = 1 if cfa else 3, px.reshape(h, -1).tolist()
        name = bytes(r.choice(b"abcdefgh") for _ in range(r.randrange(1, 9)))
        x["artist"] = list(name)
        return x, dng.make(px, e=r.choice("<>"), photometric=32803 if cfa else 34892, rootextra={315: (tiff.ASCII, name + b"\0")}, exif={34855: (tiff.SHORT, x["iso"])}, black=[0] if cfa else [0, 0, 0], white=[65535] * x["cpp"]), "dng"
    if kind == "jpeg":
        xmp = b"<x:xmpmeta>" + bytes(r.choice(b"abcd <>/") for _ in range(r.randrange(1, 60)))
        x["xmp"] = list(xmp)
        return x, jpeg(x["iso"], xmp, r.choice("<>")), "jpg"
    bits = 16 if kind.endswith("16") else 8
    if r.random() < .5:
        colour = [int(v) for v in rg.integers(0, 256, 3)]
        px = np.broadcast_to(np.array(colour) * (257 if bits == 16 else 1), (h, w, 3))
        x["colour"] = colour
    else:
        px = rg.integers(0, 1 << bits, (h, w, 3))
    x["data"] = np.asarray(px).reshape(h, -1).tolist()
    return x, png(px, bits) if kind[:3] == "png" else tif(px, bits, r.choice("<>")), kind[:3]


def decimals(v):
    """a number in ten-thousandths as text"""
    s = "%d.%04d" % (abs(v) // 10000, abs(v) % 10000)
    return ("-" if v < 0 else "") + (s.rstrip("0").rstrip(".") if v % 3 else s)


def word(r):
    return "".join(r.choice("abcXYZ 0189-_.,") for _ in range(r.randrange(1, 12))).strip() or "x"


def case(r, d):
    """one run: the record of the specification and the arguments"""
    n, used, args = r.choice([1, 1, 2, 3, 4]), set(), []
    x = {"inputs": [], "map": [], "ok": False}
    default = n == 1 and r.random() < .6
    for k in range(n):
        i, data, ext = source(r, r.choice(["png8", "png16", "tif8", "tif16", "dng", "jpeg"] if n > 1 else ["png8", "png16", "tif8", "tif16", "dng"]), used)
        x["inputs"].append(i)
        open("%s/i%d.%s" % (d, k, ext), "wb").write(data)
        args.append("%s/i%d.%s" % (d, k, ext))
    args = ["-i"] + args
    kinds = [i["kind"] for i in x["inputs"]]
    able = {"raw": ("png8", "png16", "tif8", "tif16", "dng"), "preview": ("png8", "png16", "tif8", "tif16"), "exif": ("dng", "jpeg"), "xmp": ("jpeg",)}
    able["thumbnail"] = able["preview"]
    if default:
        x["map"] = [{"use": u, "from": 1} for u in ("raw", "preview", "thumbnail", "exif", "xmp")]
    else:
        uses = list(able)
        r.shuffle(uses)
        for u in uses:
            c = [k for k, v in enumerate(kinds) if v in able[u]]
            if u in ("preview", "thumbnail"):
                c = [k for k in c if u == "preview" or x["inputs"][k]["colour"]]
            if c and (r.random() < .8 or u == "raw"):
                x["map"].append({"use": u, "from": r.choice(c) + 1})
        if not any(m["use"] == "raw" for m in x["map"]):
            return case(r, d)
        if r.random() < .3:         # a use named again: the first counts
            m = r.choice(x["map"])
            x["map"].append({"use": m["use"], "from": r.randrange(n) + 1})
        args += ["--map"] + ["%d:%s" % (m["from"] - 1, m["use"]) for m in x["map"]]
    for u, name in (("artist", "--artist"), ("make", "--make"), ("model", "--model"), ("unique", "--unique-camera-model")):
        x[u] = []
        if r.random() < .5:
            t = word(r)
            x[u] = list(t.encode())
            args += [name + "=" + t]
    x["reference"] = r.choice(["", "scene", "output"])
    if x["reference"]:
        args += ["--colorimetric-reference", x["reference"]]
    v = r.choice([None, 0, 1, 2, 3, 4, 5, 6, 6])
    x["backward"] = [1, 4 if v is None else v, 0, 0]
    if v is not None:
        args += ["--dng-backward-version", "1.%d" % v]
    x["matrix"], x["light"] = [], []
    for k in (1, 2, 3):
        m, light = [], 0
        if r.random() < .5:
            name = r.choice(sorted(LIGHTS))
            light = LIGHTS[name]
            if r.random() < .3:
                t = r.choice(sorted(NAMED))
                m = [int(q / 1000) for q in NAMED[t]]
            else:
                m = [r.randrange(-30000, 30000) for _ in range(9)]
                t = r.choice([",", ", "]).join(decimals(q) for q in m)
            args += ["--matrix%d=%s" % (k, t), "--illuminant%d" % k, name]
        x["matrix"].append(m)
        x["light"].append(light)
    x["neutral"], x["xy"], x["table"] = [], [], []
    k = r.random()
    if k < .35:
        x["neutral"] = [r.randrange(1, 40000) for _ in range(3)]
        args += ["--wb=" + ",".join(decimals(q) for q in x["neutral"])]
    elif k < .7:
        t = r.choice(["D50", "D65", ""])
        x["xy"] = {"D50": [3457, 3585], "D65": [3127, 3290]}.get(t) or [r.randrange(1, 9000), r.randrange(1, 9000)]
        args += ["--white-xy=" + (t or ",".join(decimals(q) for q in x["xy"]))]
    raw = x["inputs"][next(m["from"] for m in x["map"] if m["use"] == "raw") - 1]
    if raw["kind"] != "dng" and r.random() < .4:
        x["table"] = [r.randrange(65536) for _ in range(r.choice([2, 5, 256]))]
        args += ["--linearization", ",".join(map(str, x["table"]))]
    return x, args


def parts(data):
    f = tiff.File(data)
    root = f.roots[0]
    text = lambda t: list(bytes(root.ent[t].raw).split(b"\0")[0]) if t in root.ent else []
    many = lambda t, i=root: [int(v) for v in i.get(t)] if t in i.ent else []

    def tenk(t):
        if t not in root.ent:
            return []
        return [int(round(n * 10000 / d)) for n, d in root.get(t)]
    out = {"raw": [], "preview": [], "thumb": [], "iso": [], "xmp": list(bytes(root.ent[700].raw)) if 700 in root.ent else [], "artist": text(315), "make": text(271), "model": text(272), "unique": text(50708),
           "reference": many(50879), "backward": many(50707), "version": many(50706), "matrix": [tenk(50721), tenk(50722), tenk(52531)], "light": [many(50778), many(50779), many(52529)], "neutral": tenk(50728), "xy": tenk(50729)}
    ex = root.sub.get(34665, [None])[0]
    if ex and 34855 in ex.ent:
        out["iso"] = many(34855, ex)
    for i in root.sub.get(330, []):
        if i.one(254) == 0:
            bl = []
            px = dng.raster(f, i, bl)
            val = lambda t, i=i: [int(n / d) if isinstance(v, tuple) else int(v) for v in (i.get(t) if t in i.ent else []) for n, d in [v if isinstance(v, tuple) else (v, 1)]]
            out["raw"].append({"w": i.one(256), "h": i.one(257), "cpp": i.one(277, 1), "photometric": i.one(262), "data": px.astype(int).tolist(), "black": val(50714), "white": val(50717), "table": val(50712)})
        else:
            blob = data[i.get(273)[0]:i.get(273)[0] + i.get(279)[0]]
            if i.one(254) != 1 or i.one(259) != 7 or blob[:2] != b"\xff\xd8" or blob[-2:] != b"\xff\xd9":
                raise tiff.Bad("preview")
            at = 2
            while blob[at + 1] not in (0xc0, 0xc1, 0xc2):
                at += 2 + int.from_bytes(blob[at + 2:at + 4], "big")
            h, w = struct.unpack(">HH", blob[at + 5:at + 9])
            if (w, h) != (i.one(256), i.one(257)):
                raise tiff.Bad("preview of %dx%d announced as %dx%d" % (w, h, i.one(256), i.one(257)))
            out["preview"].append({"w": w, "h": h})
    if 273 in root.ent:
        w, h = root.one(256), root.one(257)
        blob = data[root.get(273)[0]:root.get(273)[0] + root.get(279)[0]]
        if len(blob) != w * h * 3:
            raise tiff.Bad("thumbnail")
        out["thumb"].append({"w": w, "h": h, "colours": [list(c) for c in sorted(set(zip(blob[::3], blob[1::3], blob[2::3])))[:2]]})
    return out


def start(exe, args, cwd):
    return subprocess.run([exe, "makedng"] + args, user=common.NOBODY, group=common.NOBODY, extra_groups=[], capture_output=True, timeout=120, env={"PATH": "/usr/bin:/bin", "HOME": cwd}, cwd=cwd, umask=0o022)


def tree(d):
    out = {}
    for n in os.listdir(d):
        p = os.path.join(d, n)
        out[n] = "-> " + os.readlink(p) if os.path.islink(p) else sorted(os.listdir(p)) if os.path.isdir(p) else open(p, "rb").read()
    return out


def whole(data):
    try:
        return len(parts(data)["raw"]) == 1
    except (tiff.Bad, KeyError, IndexError, ValueError, struct.error):
        return False


def place(exe, s, k, base):
    """one end of the model in the real program: None, or what is wrong"""
    d = "%s/p%d" % (base, k)
    os.makedirs(d)
    rg = np.random.default_rng(k)
    px = rg.integers(0, 256, (5, 7, 3))
    out, name = os.path.join(d, "out.dng"), "i.png"
    good = png(px, 8) if s["before"] != "input" else dng.make(px[:, :, 0], black=[0])
    data = {"good": good, "badindex": good, "unsupported": b"not a picture " * 9, "corrupt": dng.make(rg.integers(0, 99, (8, 8)))[:250 + 30 * (k % 6)], "grey": grey(5, 4), "missing": b""}[s["works"]]
    if s["before"] == "input":
        name = "out.dng"
    if s["works"] != "missing" or name == "out.dng":
        open(os.path.join(d, name), "wb").write(data)
    first = "other.png" if s["works"] == "missing" else name
    if s["before"] == "file":
        open(out, "wb").write(b"an old file")
    elif s["before"] in ("link", "dangling"):
        if s["before"] == "link":
            open(os.path.join(d, "kept"), "wb").write(b"what the link shows")
        os.symlink("kept", out)
    elif s["before"] == "directory":
        os.mkdir(out)
        open(os.path.join(out, "inside"), "wb").write(b"x")
    for p in [d] + [os.path.join(d, n) for n in os.listdir(d)]:
        os.chown(p, common.NOBODY, common.NOBODY, follow_symlinks=False)
    was = tree(d)
    p = start(exe, ["-o", out, "-i", os.path.join(d, first), "--map"] + (["1:raw"] if s["works"] == "badindex" else ["0:raw"]) + (["-f"] if s["force"] else []), d)
    now = tree(d)
    ok = s["status"] == "ok"
    if (p.returncode == 0) != ok:
        return "exit status %d %s" % (p.returncode, p.stderr[-200:])
    if p.returncode not in range(0, 100):
        return "ended by %d" % p.returncode
    got = now.pop("out.dng", None)
    old = was.pop("out.dng", None)
    if now != was:
        return "beside the output: %r, before %r" % (sorted(now), sorted(was))
    if ok and not (isinstance(got, bytes) and whole(got)):
        return "no complete file"
    if not ok and got != old:
        return "output was %r, is %r" % (old if old is None else old[:40], got if got is None else got[:40])
    return None


def run(ctx):
    exe = common.build_cli()
    base = common.scratch("makedng", common.NOBODY)
    os.chmod(base, 0o755)
    m = common.run_tlc("MCMakeDng", "SPECIFICATION Spec\nINVARIANTS KeptAlways EndedWell\nCONSTRAINT Emit\n", ctx=ctx)
    ends = []
    for s in m.emitted:
        if s not in ends:
            ends.append(s)
    ctx.need(len(ends) == 72, "%d ends" % len(ends))
    with ThreadPoolExecutor(8) as ex:
        for s, why in zip(ends, ex.map(lambda t: place(exe, t[1], t[0], base), enumerate(ends))):
            if why:
                ctx.violation("place " + why.split(":")[0], s, "output name: %s; %s before, force %s, work %s" % (why, s["before"], s["force"], s["works"]))
        seeds = [ctx.rng.randrange(1 << 40) for _ in range(ctx.pick(260, 2500))]

        def one(t):
            k, seed = t
            d = "%s/c%d" % (base, k)
            os.makedirs(d)
            os.chown(d, common.NOBODY, common.NOBODY)
            x, args = case(random.Random(seed), d)
            x.update(out={})
            before = tree(d)
            p = start(exe, ["-o", d + "/out.dng"] + args, d)
            why = "status %d %s" % (p.returncode, p.stderr[-300:])
            now = tree(d)
            got = now.pop("out.dng", None)
            if p.returncode == 0 and got and now == before:
                try:
                    x.update(ok=True, out=parts(got))
                except (tiff.Bad, KeyError, IndexError, ValueError, struct.error) as e:
                    why = "%s: %s" % (type(e).__name__, e)
            return x, why, args
        done = list(ex.map(one, enumerate(seeds)))
    for v in common.validate("MakeTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", [x for x, _, _ in done], ctx):
        x, why, args = done[v["reject"] - 1]
        ctx.violation(v["why"], x, "%s: %s; %s" % (v["why"], why, " ".join(args)[:400]))
        if ctx.too_many():
            return
    ctx.sample(done[0][2])
