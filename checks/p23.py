"""P23: JPEG segments (spec/MCJfif.tla) and Canon heap directories (spec/MCCiff.tla)."""
import json, random, struct
from lib import common, rawhost, tiff

LEN = {"soi": 2, "eoi": 2, "app0": 18, "app0t": 24, "app0x": 12, "exif": 60, "exifb": 30, "xmp": 45, "app1": 50, "app1s": 5, "com": 9, "sos": 40, "junk": 2}
XMP = b"http://ns.adobe.com/xap/1.0/\0"


def segment(k, rng, exact):
    """(bytes from the marker on, what is reported behind kind and offset)"""
    rb = lambda n: bytes(rng.randrange(256) for _ in range(n))
    n = None if not exact else LEN[k] - 4
    seg = lambda m, b: struct.pack(">HH", m, len(b) + 2) + b
    if k == "soi":
        return b"\xff\xd8", []
    if k == "eoi":
        return b"\xff\xd9", []
    if k == "junk":
        return (rb(2) if exact else rb(rng.randrange(1, 40))), []
    if k in ("app0", "app0t"):
        w, h = (0, rng.choice([0, 3])) if k == "app0" else (1, 2) if exact else rng.choice([(1, 2), (16, 16), (20, 15), (255, 80), (3, 86)])
        t = rb(3 * w * h)
        v = [rng.choice([0x0101, 0x0102]), rng.randrange(3), rng.randrange(1 << 16), rng.randrange(1 << 16), w, h]
        extra = b"" if exact else rb(rng.choice([0, 0, 1, 7]))
        return seg(0xffe0, b"JFIF\0" + struct.pack(">HBHHBB", *v) + t + extra), v + [list(t) if t else None]
    if k == "app0x":
        return seg(0xffe0, (b"JFXX\0" if rng.random() < .6 else b"AVI1\0") + rb(n - 5 if exact else rng.randrange(0, 60))), [0xffe0]
    if k == "exif":
        e = rng.choice("<>")
        ent, want = {}, {}
        for tag in rng.sample([256, 271, 272, 274, 305, 306, 40000], rng.choice([1, 2]) if exact else rng.choice([1, 3, 6])):
            v = rng.randrange(1 << 32)
            ent[tag] = (4, [v])
            want[str(tag)] = {"t": 4, "v": [v]}
        t = b"Exif\0\0" + tiff.build([tiff.Ifd(ent)], e)
        return seg(0xffe1, t + rb((n - len(t)) if exact else rng.choice([0, 0, 3]))), [want]
    if k == "exifb":
        b = b"Exif\0\0" + rng.choice([b"XX*\0", b"II+\0", b"MM\0*\0\0\0\0", b"II*\0\xff\xff\xff\xff", b""])
        return seg(0xffe1, b + bytes((n - len(b)) if exact else rng.choice([0, 1, 30]))), [0xffe1]
    if k == "xmp":
        x = rb(n - len(XMP) if exact else rng.choice([0, 1, 30, 3000]))
        return seg(0xffe1, XMP + x), [list(x)]
    if k == "app1":
        b = b"\0other" + rb(n - 6 if exact else rng.randrange(25, 90))
        return seg(0xffe1, b), []
    if k == "app1s":
        return seg(0xffe1, rb(1) if exact else bytes(rng.randrange(1, 6))), []
    if k == "com":
        m = rng.choice([0xfffe, 0xffdb, 0xffc0, 0xffc4, 0xffe2, 0xffed, 0xffdd])
        return seg(m, rb(5 if exact else rng.choice([0, 1, 5, 200, 65533]))), [m]
    # a scan: header and entropy coded data
    head = b"\xff\xda" + struct.pack(">HBBBBBBBBB", 12, 3, 1, 0, 2, 0x11, 3, 0x11, 0, 63) + b"\0"
    m = LEN[k] - len(head) if exact else rng.choice([0, 5, 100, 3000])
    b = bytearray()
    while len(b) < m - 1:
        b += rng.choice([rb(1).replace(b"\xff", b"\xfe"), b"\xff\0", b"\xff" + bytes([0xd0 + rng.randrange(8)])])
    b = bytes(b) + b"\x7f" * (m - len(b))
    return head + b, []


def jfif(x, seed):
    rng = random.Random(seed)
    exact = x["cut"] < sum(LEN[k] for k in x["segs"]) or x["bad"] > 0
    parts = [segment(k, rng, exact) for k in x["segs"]]
    offs, b = [], b""
    for i, (p, _) in enumerate(parts):
        offs.append(len(b))
        if x["bad"] and i == 1:
            p = p[:2] + struct.pack(">H", x["bad"] - 1) + p[4:]
        b += p
    return (b[:x["cut"]] if exact and not x["bad"] else b), offs, parts


def ask_jfif(it, call):
    x, seed = it
    data, offs, parts = jfif(x, seed)
    j, _ = call({"op": "jfif"}, data, 10)
    if "hang" in j or "died" in j:
        return "no answer: %r" % j
    if x["res"] == "any":
        return None
    if x["res"] == "err":
        return None if rawhost.failed(j) else "read without an error"
    if rawhost.failed(j):
        return "not read: %r" % j
    if len(j["segs"]) != len(x["out"]):
        return "%d segments instead of %d: %r" % (len(j["segs"]), len(x["out"]), [s[:2] for s in j["segs"]])
    for s, o in zip(j["segs"], x["out"]):
        k = o["k"]
        want = ["eoi"] if k == "eoi" else [k, offs[o["seg"] - 1]] + ([parts[o["seg"] - 1][1][-1]] if k == "exif" else parts[o["seg"] - 1][1])
        got = s[:2] + [s[2]["ent"]] if k == "exif" and s[0] == "exif" else s
        if x["segs"][o["seg"] - 1] in ("app1", "app1s", "exifb") and got in (["app1", want[1]], ["unknown", want[1], 0xffe1]):
            continue      # neither EXIF nor XMP
        if got != want:
            return "segment %d is read as %r instead of %r" % (o["seg"], str(got)[:300], str(want)[:300])
    if x["exif"]:
        if j["exif"] is None or j["exif"]["ent"] != parts[x["exif"] - 1][1][-1]:
            return "EXIF of the file is %r" % j["exif"]
    elif j["exif"] is not None:
        return "EXIF out of nowhere"
    if j["xmp"] != (parts[x["xmp"] - 1][1][0] if x["xmp"] else None):
        return "XMP of the file is %r" % (j["xmp"],)
    return None


IDS = {"cfa1": [(0x0032, 0), (0x102c, 2), (0x10a9, 3), (0x1835, 5)], "make": [(0x080a, 1), (0x1031, 4)]}


def ciff(x, seed):
    """(file, tag index of the look up, {directory: value})"""
    rng = random.Random(seed)
    rb = lambda n: bytes(rng.randrange(256) for _ in range(n))
    ids = {t: rng.choice(v) for t, v in IDS.items()}
    vals = {}

    def directory(k):
        part, ent, subs = b"", [], 0
        first = None
        for e in x["dirs"][k - 1]:
            part += rb(rng.choice([0, 0, 1, 2]))
            if e["t"] != "sub":
                tag = ids[e["t"]][0]
                if e["how"] == "table":
                    v = rb(8)
                    ent.append(struct.pack("<H", 0x4000 | tag) + v)
                else:
                    v = rb(rng.choice([0, 1, 4, 9, 64]))
                    ent.append(struct.pack("<HII", tag, len(v), len(part)))
                    part += v
                vals[(k, e["t"])] = v
                continue
            typ = rng.choice([0x2800, 0x3000]) | rng.randrange(1, 0x7ff)
            if e["how"] in ("a", "b"):
                typ = (0x2800 if e["how"] == "a" else 0x3000) | rng.randrange(1, 0x7ff)
                b = directory(x["kids"][k - 1][subs])
                subs += 1
                first = first or (len(b), len(part))
                ent.append(struct.pack("<HII", typ, len(b), len(part)))
                part += b
            elif e["how"] == "again":
                ent.append((typ, first))
            elif e["how"] == "self":
                ent.append((typ, None))
            else:
                part += b"\xff" * 8
                n = rng.choice([0, 1, 3, 4, 8])
                ent.append(struct.pack("<HII", typ, n, len(part) - n))
        table = len(part)
        for _ in range(rng.choice([0, 0, 2])):
            ent.insert(rng.randrange(len(ent) + 1), struct.pack("<H", 0x4000 | rng.choice([0x1810, 0x0805, 0x1818])) + rb(8))
        size = table + 2 + 10 * len(ent) + 4
        pad = rb(rng.choice([0, 0, 2]))
        size += len(pad)
        out = b""
        for e in ent:
            if isinstance(e, tuple):
                n, o = e[1] if e[1] else (size, 0)
                e = struct.pack("<HII", e[0], n, o)
            out += e
        return part + struct.pack("<H", len(ent)) + out + pad + struct.pack("<I", table)
    body = directory(1)
    head = rng.choice([26, 26, 32])
    f = b"II" + struct.pack("<I", head) + b"HEAPCCDR" + struct.pack("<I", 0x10002)
    return f + bytes(head - len(f)) + body, ids[x["want"]], vals


def ask_ciff(it, call):
    x, seed = it
    data, (tag, idx), vals = ciff(x, seed)
    j, _ = call({"op": "ciff"}, data, 10)
    if rawhost.failed(j):
        return "not read: %r" % j
    got = j["found"][idx]
    if x["found"] == 0:
        return None if got is None else "a value out of nowhere: %r" % got
    v = vals[(x["found"], x["want"])]
    shift = {0x1000: 1, 0x1800: 2}.get(tag & 0x3800, 0)
    if got is None:
        return "the value of directory %d is not found" % x["found"]
    if bytes(got["data"]) != v or got["tag"] != tag or got["typ"] != tag & 0x3800 or got["count"] != len(v) >> shift or data[got["off"]:got["off"] + len(v)] != v:
        return "found %r instead of %r of directory %d" % (got, v, x["found"])
    return None


def run(ctx):
    jf, cf = [], []
    for fam, n in [("all", ctx.pick(3, 4)), ("noend", 3), ("cut", 2), ("first", 1), ("len", 2)]:
        res = common.run_tlc("MCJfif", 'SPECIFICATION Spec\nCONSTANTS Family="%s" N=%d\nINVARIANTS Complete\nPROPERTY Terminates\nCONSTRAINT Emit\n' % (fam, n), ctx=ctx)
        got = list({json.dumps(x, sort_keys=True): x for x in res.emitted}.values())
        ctx.need(len(got) >= 10, "family " + fam)
        if fam in ("cut", "len") and ctx.quick:
            got = ctx.rng.sample(got, min(len(got), 1500))
        jf += [(fam, x) for x in got]
    for fam, n in [("tree", ctx.pick(2, 3)), ("bad", 3)]:
        res = common.run_tlc("MCCiff", 'SPECIFICATION Spec\nCONSTANTS Family="%s" N=%d\nINVARIANTS Once Exhaustive\nPROPERTY Terminates\nCONSTRAINT Emit\n' % (fam, n), ctx=ctx)
        got = list({json.dumps(x, sort_keys=True): x for x in res.emitted}.values())
        ctx.need(len(got) > 300 and {x["found"] for x in got} >= {0, 1, 2}, "family " + fam)
        if ctx.quick:
            got = ctx.rng.sample(got, min(len(got), 3000))
        cf += [(fam, x) for x in got]
    with rawhost.Pool(12) as P:
        for rep in range(ctx.pick(1, 6)):
            for what, l, fn in (("jfif", jf, ask_jfif), ("ciff", cf, ask_ciff)):
                items = [(x, ctx.rng.randrange(1 << 40)) for _, x in l]
                for (fam, x), it, r in zip(l, items, P.map(fn, items)):
                    ctx.traces += 1
                    if r:
                        data = (jfif if what == "jfif" else ciff)(*it)[0]
                        ctx.violation("%s:%s" % (what, fam), dict(x, seed=it[1], file=data.hex()[:20000]), "%s %s: %s" % (what, json.dumps(x.get("segs") or x["dirs"]), r))
                        if ctx.too_many():
                            return
    ctx.sample(jf[500][1])
    ctx.sample(cf[500][1])
    ctx.count("jpeg_files", len(jf))
    ctx.count("heap_files", len(cf))
