"""P22: box structures and sample tables of ISO media files (CR3): spec/MCBoxes.tla, spec/MCSamples.tla."""
import json, random, struct
from lib import common, rawhost

XPACKET = bytes.fromhex("be7acfcb97a942e89c71999491e3afac")
HUGE = 2000000000
ROLE = {"mvhd0": "mvhd", "mvhd1": "mvhd", "mdhd0": "mdhd", "mdhd1": "mdhd", "stszu": "stsz"}
NAME = dict(ROLE, uuidu="uuid", uuidx="uuid")
SIZE = {"ftyp": 16, "mvhd0": 24, "mvhd1": 32, "tkhd": 8, "mdhd0": 24, "mdhd1": 36, "hdlr": 8, "vmhd": 12, "dinf": 8, "stts": 16, "stsc": 32,
        "stsz": 32, "stszu": 12, "co64": 32, "mdat": 40, "stsd": 8, "free": 5, "uuidu": 6, "uuidx": 9}


def be(n, *v):
    return struct.pack(">" + n, *v)


def payload(k, rng, count=None):
    """(bytes, what the reader has to say about them)"""
    r32 = lambda: rng.choice([0, 1, 0xffffffff, rng.randrange(1 << 32)])
    r64 = lambda: rng.choice([0, 1, rng.randrange(1 << 32), rng.randrange(1 << 62)])
    r16 = lambda: rng.randrange(1 << 16)
    fl = rng.randrange(1 << 24)
    ver = 1 if k in ("mvhd1", "mdhd1") else 0 if k in ("mvhd0", "mdhd0") else rng.randrange(4)
    ext = be("I", ver << 24 | fl)
    d = {"version": ver, "flags": fl}
    if k == "ftyp":
        br = [rng.choice(["crx ", "isom", "mp42", "heic"]) for _ in range(3)]
        m = rng.randrange(1 << 32)
        return br[0].encode() + be("I", m) + br[1].encode() + br[2].encode(), {"major_brand": br[0], "minor_version": m, "compatible_brands": br[1:]}
    if k in ("mvhd0", "mvhd1", "mdhd0", "mdhd1"):
        wide = k[-1] == "1"
        v = [r64(), r64(), r32(), r64()] if wide else [r32(), r32(), r32(), r32()]
        b = ext + be("QQIQ" if wide else "IIII", *v)
        d.update(zip(["creation_time", "modification_time", "timescale", "duration"], v))
        if k.startswith("mdhd"):
            d["language"] = "FIXME"
        return b, d
    if k in ("tkhd", "hdlr", "stsd"):
        return ext, d
    if k == "vmhd":
        v = [r16() for _ in range(4)]
        return ext + be("4H", *v), dict(d, graphics_mode=v[0], op_color=dict(red=v[1], green=v[2], blue=v[3]))
    if k == "stts":
        v = [r32(), r32()]
        return ext + be("3I", 1 if count is None else count, *v), dict(d, entries=[dict(sample_count=v[0], sample_delta=v[1])])
    if k == "stsc":
        v = [[1, rng.randrange(1, 9), 1], [rng.randrange(2, 9), rng.randrange(1, 9), rng.choice([1, 2])]]
        ent = [dict(first_chunk=x[0], samples_per_chunk=x[1], sample_description_index=x[2], first_sample=1) for x in v]
        ent[1]["first_sample"] = 1 + (v[1][0] - 1) * v[0][1]
        return ext + be("I", 2 if count is None else count) + be("6I", *v[0], *v[1]), dict(d, entries=ent)
    if k == "stsz":
        v = [r32() for _ in range(5)]
        return ext + be("II", 0, 5 if count is None else count) + be("5I", *v), dict(d, sample_size=0, sample_count=5, sample_sizes=v)
    if k == "stszu":
        u, n = rng.randrange(1, 1 << 32), rng.randrange(1 << 32)
        return ext + be("II", u, n), dict(d, sample_size=u, sample_count=n, sample_sizes=[u])
    if k == "co64":
        v = [r64() for _ in range(3)]
        return ext + be("I", 3 if count is None else count) + be("3Q", *v), dict(d, entries=v)
    return b"", {}


def build(x, seed):
    rng = random.Random(seed)
    f = x["fault"]
    boxes = x["boxes"]
    end = max(b["off"] + b["size"] for b in boxes)
    out = bytearray(rng.randrange(256) if rng.random() < .3 else 0 for _ in range(end))
    for b in boxes:
        if b["depth"]:
            continue
    desc = []
    for i, b in enumerate(boxes):
        hit = f["box"] == i + 1
        k = b["k"]
        typ = NAME.get(k, k).encode()
        if k == "free":
            typ = rng.choice([b"free", b"skip", b"wide", b"prfl", b"\0\0\0\0", b"\xff\xfe\xa9x"])
        u = XPACKET if k == "uuidx" else bytes(rng.randrange(256) for _ in range(16)) if k == "uuidu" else b""
        size = b["size"] if b["f"] else 0
        if hit and f["how"] == "size":
            size = f["v"]
        elif hit and f["how"] == "delta":
            size = b["size"] + f["v"] - 4
        wide = b["f"] == 64
        if size == HUGE:
            size = rng.choice([0xffffffffffffffff, 0x8000000000000000, 0x7fffffffffffffff, 0xfffffffffffffff0, 0x100000000]) if wide else rng.choice([0xffffffff, 0x7fffffff, 0x80000000])
        h = (be("I", 1) + typ + be("Q", size) if wide else be("I", size) + typ) + u
        body, d = payload(k, rng, rng.choice([0xffffffff, 0x7fffffff, 0x10000000]) if hit and f["how"] == "count" else None)
        if SIZE.get(k, 0) > len(body):
            body += bytes(rng.randrange(256) for _ in range(SIZE[k] - len(body)))
        assert len(h) == b["hdr"] and (k not in SIZE or len(body) == SIZE[k]), (k, h, body)
        out[b["off"]:b["off"] + len(h) + len(body)] = h + body
        desc.append((b, typ, u, d))
    return bytes(out[:x["eof"]] if f["how"] == "cut" else out), desc


def uuid_s(u):
    h = u.hex()
    return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def expected(x, desc):
    """The tree of the boxes the model's reader has seen."""
    node = {0: []}
    for o in x["out"]:
        b, typ, u, d = desc[o["box"] - 1]
        n = dict(d, header=dict(size=o["size"], typ=typ.decode("utf8", "replace"), uuid=uuid_s(u) if u else None, offset=b["off"], header_len=b["hdr"]))
        node[o["box"]] = []
        node[o["parent"]].append((b["k"], n, o["box"]))
    def fold(kids, base):
        r = dict(base)
        r["vendor"] = []
        for k, n, i in kids:
            if k in ("moov", "trak", "mdia", "minf", "stbl", "stsd"):
                n = fold(node[i], n)
                if k == "moov":
                    n.setdefault("trak", [])
                    n["cr3desc"] = None
                elif k == "minf":
                    n.setdefault("vmhd", None)
                elif k == "stbl":
                    n.setdefault("co64", None)
                elif k == "stsd":
                    n["craw"] = n["ctmd"] = None
            if k == "uuidx" and base is None.__class__:
                pass
            if k in ("free", "uuidu") or k == "uuidx" and "header" in base:
                r["vendor"].append(n)
            elif k == "uuidx":
                r["cr3xpacket"] = n
            elif k == "trak":
                r.setdefault("trak", []).append(n)
            else:
                r[ROLE.get(k, k)] = n
        return r
    return dict({"cr3xpacket": None}, **fold(node[0], {}))


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s/%s %s" % (path, k, "missing" if k not in b else "out of nowhere")
            r = diff(a[k], b[k], path + "/" + k)
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            r = diff(p, q, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return None if a == b else "%s is %r instead of %r" % (path, b, a)


def ask(it, call):
    x, seed = it
    data, desc = build(x, seed)
    j, _ = call({"op": "bmff", "samples": []}, data, 10)
    if "hang" in j or "died" in j:
        return "no answer: %r" % j
    if x["res"] == "any":
        return None
    if x["res"] == "err":
        return None if rawhost.failed(j) else "a broken file is read without an error"
    if rawhost.failed(j):
        return "not read: %r" % j
    return diff(expected(x, desc), j["file"])


def full(kind, body):
    return be("I", 12 + len(body)) + kind + be("I", 0) + body


def box(kind, *parts):
    b = b"".join(parts)
    return be("I", 8 + len(b)) + kind + b


def samples(x, call):
    stsc = be("I", len(x["runs"])) + b"".join(be("III", r["first"], r["per"], 1) for r in x["runs"])
    stsz = be("II", 7, x["n"]) if x["uniform"] else be("II", 0, x["n"]) + b"".join(be("I", v) for v in x["sizes"])
    co64 = be("I", len(x["chunks"])) + b"".join(be("Q", v) for v in x["chunks"])
    stbl = box(b"stbl", full(b"stsd", be("I", 0)), full(b"stts", be("I", 0)), full(b"stsc", stsc), full(b"stsz", stsz), full(b"co64", co64))
    trak = box(b"trak", full(b"tkhd", b""), box(b"mdia", full(b"mdhd", bytes(18)), full(b"hdlr", b""), box(b"minf", box(b"dinf"), stbl)))
    data = box(b"ftyp", b"crx ", be("I", 1)) + box(b"moov", full(b"mvhd", bytes(16)), trak, trak) + box(b"mdat", b"")
    j, _ = call({"op": "bmff", "samples": [x["n"], x["n"]]}, data, 10)
    if rawhost.failed(j):
        return "not read: %r" % j
    for l in j["locs"]:
        if l != x["locs"]:
            return "the samples are said to be at %r instead of %r" % (l, x["locs"])
    return None


def run(ctx):
    allx = []
    for fam in ("top", "nest", "size", "cut"):
        res = common.run_tlc("MCBoxes", 'SPECIFICATION Spec\nCONSTANTS Family="%s" Wide=%s\nINVARIANTS Whole\nPROPERTIES Terminates Progress\nCONSTRAINT Emit\n' % (fam, ctx.pick("FALSE", "TRUE")), ctx=ctx)
        got = {json.dumps(x, sort_keys=True): x for x in res.emitted}
        ctx.need(len(got) > 800 and len({x["res"] for x in got.values()}) >= 2, "family " + fam)
        allx += [(fam, x) for x in got.values()]
        ctx.count("files_" + fam, len(got))
    res = common.run_tlc("MCSamples", "SPECIFICATION Spec\nCONSTANTS Chunks=%d PerChunk=%d Split=TRUE\nINVARIANTS Complete Disjoint\nCONSTRAINT Emit\n" % (ctx.pick(4, 5), ctx.pick(3, 4)), ctx=ctx)
    smp = list({json.dumps(x, sort_keys=True): x for x in res.emitted}.values())
    ctx.need(len(smp) > 500, "samples")
    with rawhost.Pool(12) as P:
        for rep in range(ctx.pick(1, 5)):
            items = [(x, ctx.rng.randrange(1 << 40)) for _, x in allx]
            for (fam, x), it, r in zip(allx, items, P.map(ask, items)):
                ctx.traces += 1
                if r:
                    data, _ = build(x, it[1])
                    ctx.violation("boxes:%s:%s" % (fam, x["res"]), dict(x, seed=it[1], file=data.hex()), "%s: boxes %s, %s: %s" % (fam, [(b["k"], b["f"], b["depth"]) for b in x["boxes"]], x["fault"], r))
                    if ctx.too_many():
                        return
        for x, r in zip(smp, P.map(samples, smp)):
            ctx.traces += 1
            if r:
                ctx.violation("samples", x, "runs %s, %d samples of %s bytes, chunks at %s: %s" % (x["runs"], x["n"], x["sizes"], x["chunks"], r))
                if ctx.too_many():
                    return
    ctx.sample(allx[len(allx) // 3][1])
    ctx.sample(smp[-1])
    ctx.count("sample_tables", len(smp))
