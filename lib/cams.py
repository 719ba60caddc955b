"""Camera raw files of many formats, written from the facts spec/Cameras.tla is about."""
import glob
import os
import struct
import tomllib
from lib import tiff
from lib.tiff import BYTE, ASCII, SHORT, LONG, RATIONAL, UNDEF, FLOAT


def database(repo):
    """(make, model) -> {mode: entry} of the camera database"""
    out = {}
    for f in sorted(glob.glob(repo + "/rawler/data/cameras/**/*.toml", recursive=True)):
        t = tomllib.load(open(f, "rb"))
        for mode in [{"mode": t.get("mode", "")}] + t.get("cameras", {}).get("modes", []):
            c = {**t, **mode}
            for model, clean in [[c["model"], c["clean_model"]]] + t.get("model_aliases", []):
                out.setdefault((c["make"], model), {})[mode.get("mode", "")] = {
                    "make": c["clean_make"], "model": clean, "pattern": c.get("color_pattern", "").replace("E", "C"), "hints": c.get("hints", []), "highres": c.get("highres_width", 0),
                    "black": [c["blackpoint"]] if "blackpoint" in c else [], "white": [c["whitepoint"]] if "whitepoint" in c else [],
                    "active": c.get("active_area", []), "crop": c.get("crop_area", []), "masked": "blackareah" in c or "blackareav" in c,
                    "bps": c.get("bps", 0), "raw": [c.get("raw_width", 0), c.get("raw_height", 0)], "filesize": c.get("filesize", 0)}
    return out


def directory(entries, e, where, corr=0):
    """an IFD that begins at file offset `where`; values outside of entries are found at their position minus corr"""
    recs, blob = [], b""
    end = where + 2 + 12 * len(entries) + 4
    for tag in sorted(entries):
        raw, n = tiff.enc(*entries[tag], e)
        if len(raw) <= 4:
            recs.append(struct.pack(e + "HHI", tag, entries[tag][0], n) + raw.ljust(4, b"\0"))
        else:
            if (end + len(blob)) % 2:
                blob += b"\0"
            recs.append(struct.pack(e + "HHII", tag, entries[tag][0], n, end + len(blob) - corr))
            blob += raw
    return struct.pack(e + "H", len(recs)) + b"".join(recs) + b"\0\0\0\0" + blob


MARK = b"\xa5MAKERNOTE?\x5a"


class Maker:
    """a maker note whose bytes depend on where it is"""

    def __init__(self, fn):
        self.fn = fn
        self.size = len(fn(0))

    def hole(self):
        return MARK.ljust(self.size, b"\0")[:max(self.size, len(MARK))]

    def put(self, f):
        at = f.index(MARK)
        assert f.count(MARK) == 1
        b = self.fn(at)
        return f[:at] + b + f[at + len(b):]


class Case:
    """one file: the camera, its dimensions and the facts recorded for the specification"""

    def __init__(self, rng, db, key, fmt, bx=0, by=0):
        self.r, self.db, self.key, self.fmt = rng, db, key, fmt
        self.cams = db[key]
        self.make, self.model = key
        self.bx = max(max(c["active"][0] + c["active"][2] if c["active"] else 0, c["crop"][0] + c["crop"][2] if c["crop"] else 0) for c in self.cams.values())
        self.by = max(max(c["active"][1] + c["active"][3] if c["active"] else 0, c["crop"][1] + c["crop"][3] if c["crop"] else 0) for c in self.cams.values())
        self.f = {"be": False, "model": self.model}
        self.meta = None    # capture metadata: entries of the directories root, exif and gps
        self.far = False    # the whole raster is needed to find the first samples

    def size(self, step=2, minw=2, minh=2, steph=1):
        r = self.r
        w = max(self.bx + 2, minw) + r.randrange(0, 40)
        h = max(self.by + 2, minh) + r.randrange(0, 12)
        self.w, self.h = (w + step - 1) // step * step, (h + steph - 1) // steph * steph
        return self.w, self.h

    def order(self):
        self.f["be"] = self.r.random() < .5
        return ">" if self.f["be"] else "<"

    def raster(self, n):
        r = self.r
        b = r.randbytes(n) if r.random() < .7 else b"".join(bytes([r.choice([0, 255, r.randrange(256)])] * 7) for _ in range(n // 7 + 1))[:n]
        self.data = b
        return b

    def names(self):
        if not hasattr(self, "pad"):
            self.pad = " " * self.r.choice([0, 0, 1, 3])
        pad = self.pad
        return {271: (ASCII, self.make + pad), 272: (ASCII, self.model + pad), **(self.meta["root"] if self.meta else {})}

    def more(self, note=None):
        """the directories of the capture metadata"""
        ent = {} if note is None else {37500: (UNDEF, note)}
        if note is not None or self.meta:
            ent.update(self.meta["exif"] if self.meta else {33434: (RATIONAL, [(1, 60)])})
        out = {34665: [tiff.Ifd(ent)]} if ent else {}
        if self.meta and self.meta["gps"]:
            out[34853] = [tiff.Ifd(self.meta["gps"])]
        return out

    def record(self, file):
        self.file = file
        n = len(self.data) if self.far else min(len(self.data), 2600)
        total = self.w * self.h
        top = total if len(self.data) <= n else max(1, min(total, n // 4 - 16))
        idx = list(range(total)) if total <= 160 else sorted(self.r.sample(range(top), min(top, 90)))
        if self.far or len(self.data) <= n:
            idx = sorted(set(idx) | {total - 1, total - self.w, self.w - 1})
        return {"fmt": self.fmt, "w": self.w, "h": self.h, "cams": self.cams, "f": self.f, "data": list(self.data[:n]), "idx": idx, "full": True}


def words(r, n, lo=1, hi=65535):
    return [r.choice([lo, hi, r.randrange(lo, hi + 1), r.randrange(lo, min(hi, 2000) + 1)]) for _ in range(n)]


def levels(r, n=4, hi=2000):
    return [r.randrange(hi) for _ in range(n)]


def some(r, v, p=.6):
    return v if r.random() < p else []


def lay12(w, h):
    return (w * h * 12 + 7) // 8


# ------------------------------------------------------------------ formats
def mef(c):
    e = c.order()
    w, h = c.size()
    raw = {256: (SHORT, w), 257: (SHORT, h), 33422: (BYTE, [0, 1, 1, 2])}
    data = c.raster(lay12(w, h) + 8)
    if c.r.random() < .5:
        return tiff.build([tiff.Ifd({**c.names(), **raw}, strips=[data], subs=c.more())], e)
    return tiff.build([tiff.Ifd(c.names(), subs={**c.more(), 330: [tiff.Ifd(raw, strips=[data])]})], e)


def erf(c):
    e = c.order()
    w, h = c.size(10)
    r, b = words(c.r, 2, 0, 60000)
    c.f.update(r=r, b=b)
    wb = bytearray(c.r.randbytes(256))
    wb[48:52] = struct.pack(">HH", r, b)
    ent = {0x0E80: (UNDEF, bytes(wb)), 0x0200: (LONG, [1, 2, 3])}
    black = some(c.r, levels(c.r))
    if black:
        c.f["black"] = black
        ent[0x0401] = (c.r.choice([SHORT, LONG]), black)
    pre = c.r.choice([b"EPSON\0\1\0", b""])
    m = Maker(lambda at: pre + directory(ent, e, at + len(pre)))
    data = c.raster(h * w * 8 // 5 + 8)
    f = tiff.build([tiff.Ifd({**c.names(), 256: (LONG, w), 257: (LONG, h), 33422: (BYTE, [0, 1, 1, 2])}, strips=[data], subs=c.more(m.hole()))], e)
    return m.put(f)


def mrw(c):
    w, h = c.size()
    st = c.r.choice([12, 16])
    wb = words(c.r, 4, 1, 4000)
    c.f.update(storage=st, wbg=wb)
    ifd = b"MM\0*\0\0\0\10" + directory({306: (ASCII, "2004:01:01 00:00:00"), **c.names()}, ">", 8)
    blk = lambda tag, b: struct.pack(">II", tag, len(b)) + b
    blocks = [blk(0x505244, c.r.randbytes(8) + struct.pack(">HHHH", h, w, h & ~1, w & ~1) + bytes([st, c.r.randrange(256)]) + c.r.randbytes(6)),
              blk(0x574247, bytes(c.r.randrange(256) for _ in range(4)) + struct.pack(">4H", *wb)),
              blk(0x545457, ifd), blk(0x524946, c.r.randbytes(c.r.randrange(0, 40)))]
    c.r.shuffle(blocks)
    body = b"".join(blocks) + blk(0x504144, bytes(c.r.randrange(24, 60)))
    data = c.raster(w * h * 2 if st != 12 else lay12(w, h))
    return b"\0MRM" + struct.pack(">I", len(body)) + body + data


def fff(c):
    e = c.order()
    w, h = c.size(1)
    black, white = some(c.r, levels(c.r, 1)), c.r.choice([65535, c.r.randrange(1, 65536)])
    neu = [(c.r.randrange(1, 5000), c.r.randrange(1, 5000)) for _ in range(3)]
    crop = some(c.r, [c.r.randrange(0, w), c.r.randrange(0, h), c.r.randrange(1, w + 1), c.r.randrange(1, h + 1)])
    c.f.update(white=white, neutral=[list(x) for x in neu], crop=crop)
    raw = {256: (LONG, w), 257: (LONG, h), 50717: (SHORT, white)}
    if black:
        c.f["black"] = black
        raw[50714] = (SHORT, black)
    if crop:
        raw[50719] = (LONG, crop[:2])
        raw[50720] = (LONG, crop[2:])
    data = c.raster(w * h * 2)
    return tiff.build([tiff.Ifd({**c.names(), 50728: (RATIONAL, neu)}, subs={**c.more(), 330: [tiff.Ifd(raw, strips=[data])]})], e)


def kdc(c):
    e = c.order()
    w, h = c.size(2, 82, 72)
    kind = c.r.choice(["none", "float", "words"])
    c.f.update(maker=kind)
    subs, m = c.more(), None
    if kind == "float":
        v = [c.r.randrange(1, 16384) for _ in range(3)]
        c.f["wb"] = v
        ent = {0xFA2A: (FLOAT, [x / 4096 for x in v])}
    elif kind == "words":
        n = c.r.choice([734, 1502, 1512, 2288])
        b = bytearray(c.r.randbytes(n))
        x, y = words(c.r, 2, 0)
        b[148:152] = struct.pack(">HH", x, y)
        c.f.update(r=x, b=y)
        ent = {0x0F00: (UNDEF, bytes(b))}
    if kind != "none":
        m = Maker(lambda at: directory(ent, e, at))
        subs = c.more(m.hole())
    data = c.raster(lay12(w, h) + 8)
    o = words(c.r, c.r.randrange(13, 20), 0, 1000)

    def whole():
        f = tiff.build([tiff.Ifd({**c.names(), 0xFD00: (LONG, w - 80), 0xFD01: (LONG, h - 70), 0xFD04: (LONG, o)}, subs=subs)], e)
        return m.put(f) if m else f
    at = len(whole()) + c.r.randrange(0, 500)
    if "easyshare_offset_hack" in c.cams[""]["hints"]:
        low = c.r.random() < .5
        at, said = (0x15000, c.r.randrange(0x15000)) if low else (0x17000, c.r.randrange(0x15000, 0x20000))
    else:
        said = at
    o[4] = c.r.randrange(0, said + 1)
    o[12] = said - o[4]
    return whole().ljust(at, b"\0") + data


def pef(c):
    e = c.order()
    e2 = c.r.choice("<>")
    w, h = c.size(2)
    comp = c.r.choice([1, 32773])
    wb, black = some(c.r, words(c.r, 4, 256, 30000)), some(c.r, levels(c.r))
    c.f.update(compression=comp, wb=wb)
    ent = {0x0001: (SHORT, [1, 2])}
    if wb:
        ent[0x0201] = (SHORT, wb)
    if black:
        c.f["black"] = black if c.cams[""]["pattern"] else black[:1]
        ent[0x0200] = (SHORT, black)
    bo = {"<": b"II", ">": b"MM"}[e2]
    if c.r.random() < .5:
        m = Maker(lambda at: b"AOC\0" + bo + directory(ent, e2, at + 6))
    else:
        m = Maker(lambda at: b"PENTAX \0" + bo + directory(ent, e2, at + 10, at))
    data = c.raster(w * h * 2 if comp == 1 else lay12(w, h) + 8)
    f = tiff.build([tiff.Ifd({**c.names(), 256: (LONG, w), 257: (LONG, h), 259: (LONG if comp > 65535 else SHORT, comp)}, strips=[data], subs=c.more(m.hole()))], e)
    return m.put(f)


def srw(c):
    e = c.order()
    w, h = c.size(2)
    bits, comp = c.r.choice([(12, 32769), (12, 32770), (14, 32769), (14, 32770)])
    dark = levels(c.r, 4, 200)
    wb = [x + c.r.randrange(0, 20000) for x in dark]
    c.f.update(compression=comp, bps=bits, wb=wb, dark=dark)
    ent = {0xA021: (LONG, wb), 0xA028: (LONG, dark), 0x0001: (UNDEF, b"0100")}
    m = Maker(lambda at: directory(ent, e, at, at))
    data = c.raster(w * h * 2 + 8)
    f = tiff.build([tiff.Ifd({**c.names()}, subs={**c.more(m.hole()), 330: [tiff.Ifd({256: (LONG, w), 257: (LONG, h), 258: (SHORT, bits), 259: (SHORT, comp)}, strips=[data])]})], e)
    return m.put(f)


def orf(c):
    e = c.order()
    w, h = c.size(40, 40, 4, 2)
    inter = any("interlaced" in x["hints"] for x in c.cams.values())
    size = c.r.choice([w * h * 2, w * h // 10 * 16, w * h * 12 // 8])
    n = c.r.choice([1, 1, 2, 3])
    cut = sorted(c.r.sample(range(1, size), n - 1))
    counts = [b - a for a, b in zip([0] + cut, cut + [size])]
    bits = c.r.choice([12, 12, 14])
    black = levels(c.r)
    R, B = words(c.r, 2, 1, 4000)
    kind = c.r.choice(["OLYMP", "OLYMPUS", "OLYMPUS", "OM SYSTEM"])
    crop = []
    proc = {0x0600: (SHORT, black), 0x0611: (SHORT, [bits, 0])}
    ent = {0x0207: (ASCII, "D4029")}
    if kind == "OLYMP" or c.r.random() < .4:
        ent[0x1017] = (SHORT, [R, 64])
        ent[0x1018] = (SHORT, [B, 64])
        proc[0x0100] = (SHORT, [77, 99])
    else:
        proc[0x0100] = (SHORT, [R, B] + c.r.choice([[], [256, 256]]))
    if c.r.random() < .5:
        crop = [c.r.randrange(0, w), c.r.randrange(0, h), c.r.randrange(1, w + 1), c.r.randrange(1, h + 1)]
        for t, v in zip((0x612, 0x613, 0x614, 0x615), crop):
            proc[t] = (c.r.choice([SHORT, LONG]), v)
    if kind == "OLYMP":
        bits, black, crop = 12, [], []
        pre = b"OLYMP\0\1\0"
        m = Maker(lambda at: pre + directory(ent, e, at + len(pre)))
    else:
        pre = b"OLYMPUS\0" + (b"II" if e == "<" else b"MM") + b"\3\0" if kind == "OLYMPUS" else b"OM SYSTEM\0\0\0II\4\0"

        def note(at):
            ent[0x2040] = (tiff.UNDEF if c.f["undef"] else LONG, b"\0\0\0\0" if c.f["undef"] else 0)
            if c.f["undef"]:
                ent[0x2040] = (13, 0)
            d = directory(ent, e, at + len(pre), 0 if pre[:2] == b"OL" else 0)
            k = len(pre) + len(d) + 6
            ent[0x2040] = (ent[0x2040][0], k)
            d = directory(ent, e, at + len(pre))
            return (pre + d).ljust(k, b"\0") + directory(proc, e, at + k, at)
        c.f["undef"] = c.r.random() < .5
        m = Maker(note)
    c.f.update(counts=counts, bits=bits, r=R, b=B, crop=crop, w=w, h=h)
    if black:
        c.f["black"] = black
    c.far = inter and size == w * h * 12 // 8
    half = ((h + 1) // 2) * w * 3 // 2
    data = c.raster(size + (2048 * (half // 2048 + 1) - half if c.far else 0))
    raw = {256: (LONG, w), 257: (LONG, h)}

    def whole(at):
        offs = [at + sum(counts[:k]) for k in range(n)]
        f = tiff.build([tiff.Ifd({**c.names(), **raw, 273: (LONG, offs), 279: (LONG, counts)}, subs=c.more(m.hole()))], e, c.r.choice([42]))
        return m.put(f)
    at = (len(whole(0)) + 15) // 16 * 16
    magic = whole(at)
    if e == "<" and c.r.random() < .5:
        magic = magic[:2] + c.r.choice([b"RO", b"RS"]) + magic[4:]
    return magic.ljust(at, b"\0") + data


def ari(c):
    w, h = c.size(8)
    wb = [c.r.randrange(1, 16384) for _ in range(3)]
    c.f["wb"] = wb
    at = 0xA98 + 4 * c.r.randrange(0, 400)
    hd = bytearray(b"ARRI" + bytes(at - 4))
    struct.pack_into("<I", hd, 8, at)
    struct.pack_into("<II", hd, 0x14, w, h)
    struct.pack_into("<3f", hd, 100, *[x / 4096 for x in wb])
    hd[668:698] = c.model.encode().ljust(30, b"\0")
    data = c.raster(lay12(w, h))
    return bytes(hd) + data


def mos(c):
    e = c.order()
    w, h = c.size()
    ne = some(c.r, words(c.r, 4, 1, 4000))
    meta = c.r.randbytes(c.r.randrange(0, 60)).replace(b"N", b"n")
    if ne:
        meta += b"NeutObj_neutrals" + bytes(28) + b"\n".join(b"%d" % x for x in ne) + b"\0"
    c.f["neutrals"] = ne
    xmp = "<x:xmpmeta><tiff:Model>%s%s</tiff:Model><tiff:Make>%s</tiff:Make></x:xmpmeta>" % (c.model, c.r.choice(["", "(LI302063  )/Large Format"]), c.make)
    data = c.raster(w * h * 2)
    return tiff.build([tiff.Ifd({305: (ASCII, "Camera Library"), 700: (BYTE, xmp.encode()), 0x8606: (UNDEF, meta + bytes(80)), 256: (LONG, w), 257: (LONG, h), 259: (SHORT, 1)}, tiles=[data])], e)


def sony_crypt(b, key):
    """the SR2 key stream: a shift register of 127 words"""
    m = 0xffffffff
    pad = []
    for _ in range(4):
        key = (key * 48828125 + 1) & m
        pad.append(key)
    pad[3] = (pad[3] << 1 & m) | (pad[0] ^ pad[2]) >> 31
    for p in range(4, 127):
        pad.append(((pad[p - 4] ^ pad[p - 2]) << 1 & m) | (pad[p - 3] ^ pad[p - 1]) >> 31)
    s = [int.from_bytes(x.to_bytes(4, "big"), "little") for x in pad]
    out = b""
    for i in range(len(b) // 4):
        s.append(s[i] ^ s[i + 64] if i + 64 < len(s) else 0)
        out += struct.pack("<I", struct.unpack_from("<I", b, 4 * i)[0] ^ s[127 + i])
    return out


def arw(c):
    comp = c.r.choice([1, 1, 32767])
    if any(x["bps"] not in (0, 12) for x in c.cams.values()):
        comp = 1
    w, h = c.size(2)
    if w * h * 12 % 8:
        w = c.w = (w + 3) // 4 * 4
    r = c.r
    wb, order = words(r, 4, 256, 4000), r.choice(["grbg", "rggb"])
    b1, b2, white = some(r, levels(r, r.choice([1, 4]))), some(r, levels(r, r.choice([1, 4])), .5), some(r, r.choice([[r.randrange(1, 65536)], words(r, 4)]))
    if not (b1 or b2) and r.random() < .7:
        b1 = levels(r)
    size = some(r, [r.randrange(1, w + 1), r.randrange(1, h + 1)], .4)
    crop = some(r, [r.randrange(0, w), r.randrange(0, h), r.randrange(1, w + 1), r.randrange(1, h + 1)], .4)
    c.f.update(compression=comp, wb=wb, order=order, black1=b1, black2=b2, white=white, size=size, crop=crop)
    ent = {0x7303 if order == "grbg" else 0x7313: (SHORT, wb), 0x7000: (SHORT, 2)}
    for t, v in ((0x7300, b1), (0x7310, b2), (0x787f, white)):
        if v:
            ent[t] = (SHORT, v)
    raw = {256: (LONG, w), 257: (LONG, h), 258: (SHORT, 12 if comp == 32767 else 14), 259: (SHORT, comp)}
    if size:
        raw[0x7038] = (LONG, size)
    if crop:
        raw[50719] = (LONG, crop[:2])
        raw[50720] = (LONG, crop[2:])
    data = c.raster(w * h * 12 // 8 if comp == 32767 else w * h * 2)
    key = r.choice([0, 1, 0xffffffff, r.randrange(1 << 32)])
    m = Maker(lambda at: b"SONY DSC \0\0\0" + directory({0x0102: (LONG, 1)}, "<", at + 12))

    def whole(priv):
        f = tiff.build([tiff.Ifd({**c.names(), 0xC634: (BYTE, struct.pack("<I", priv))}, subs={**c.more(m.hole()), 330: [tiff.Ifd(raw, strips=[data])]})], "<")
        return m.put(f)
    at = (len(whole(0)) + 3) // 4 * 4
    sr2 = at + 2 + 36 + 4 + 2
    d = directory(ent, "<", 0, -sr2)
    d = d.ljust((len(d) + 3) // 4 * 4, b"\0")
    priv = directory({0x7200: (LONG, sr2), 0x7201: (LONG, len(d)), 0x7221: (UNDEF, struct.pack("<I", key))}, "<", at)
    return (whole(at).ljust(at, b"\0") + priv).ljust(sr2, b"\0") + sony_crypt(d, key)


SERIAL = bytes.fromhex("c1bf6d0d59c5139d83616b4fc77f3d3d5359e3c7e92f95a7951fdf7f2b29c70ddf07ef71893d133d3b13fb0d89c1651fb30d6b29e3fbefa36b477f9535a7474fc7f1599535112961f13db32b0d4389c19d9d8965f1e9dfbf3d7f5397e5e995171d3d8bfbc7e367a707f171a753b52989e52ba71729e94fc5656d6bef0d89492fb34353651d49a3138959ef6bef651d0b5913e34f9db329432b071d95595947fbe5e961472f357f177fef7f959571d3a30b71a3ad0b3bb5fba3bf4f831dade92f7165a3e507353d0db5e9e5473b9def35a3bfb3df53d397534971073561712f432f11df1797fb953b7f6bd325bfadc7c5c5b58bef2fd3076b25499525496d71c7")
KEYMAP = bytes.fromhex("a7bcc9ad91df85e5d478d517467c294c4d03e925681186b3bdf76f6122a226342abe1e4614689d4418c240f47e5f1bad0b94b667b40be1ea959c66dce75d6c05dad5df7aeff6db1f824cc06847a1bdee3950564adddfa5f8c6daca90ca01429d8b0c7343750594de24b38034e52cdc9b3fca3345d0db5ff552c321dae222726b3ed05ba8878c065d0fdd091993d0b9fc8b0f8460331c9b45f1f0a3943a1277334d4478283c9efd655716946bfb59d0c82236dbd2639843a1048786f7a626bbd6594dbf6a2eaa2befe678b64ee02fdc7cbe5719327e2ad0b8ba29003c527da8493b2deb2549faa3aa39a7c5a7501136fbc6674af5a512657eb0dfaf4eb3617f2f")


def nef(c):
    r = c.r
    e = c.order()
    hints = c.cams[""]["hints"]
    bps = r.choice([12, 14])
    if not any(m in c.cams for m in ("12bit", "14bit")):
        pass
    elif r.random() < .9:
        bps = int(r.choice([m for m in c.cams if m in ("12bit", "14bit")])[:2])
    w, h = c.size(2 if "msb32" not in hints else 8, 2, 4)
    le = (e == "<" or "little_endian" in hints) and "big_endian" not in hints
    if "coolpixsplit" in hints:
        c.far = True
        size = ((h + 1) // 2) * w * 3 // 2 + (h // 2) * w * 3 // 2
    elif "msb32" in hints:
        size = lay12(w, h)
    elif "unpacked" in hints or bps == 14:
        size = w * h * 2
    else:
        size = lay12(w, h)
    black = some(r, levels(r))
    crop = some(r, [r.randrange(0, w), r.randrange(0, h), r.randrange(1, w + 1), r.randrange(1, h + 1)], .4)
    kind = r.choice(["none", "0c", "nrw", "nrw", "nrwold", "0100", "0102", "0103", "0204", "0205"])
    wb = words(r, 4, 1, 4000)
    ent = {1: (UNDEF, b"0210")}
    if black:
        ent[0x003d] = (SHORT, black)
    if crop:
        ent[0x0045] = (SHORT, crop)
    if kind == "0c":
        ent[0x000c] = (RATIONAL, [(wb[0], 256), (wb[1], 256), (256, 256), (256, 256)])
    elif kind in ("nrw", "nrwold"):
        b = bytearray(r.randbytes(2000))
        if kind == "nrw":
            old = r.random() < .5
            b[:8] = b"NRW " + (b"0100" if old else r.choice([b"0101", b"0200"]))
            struct.pack_into("<4I", b, 1556 if old else 56, *wb)
        else:
            b[0] = 0
            struct.pack_into(">HH", b, 1248, wb[0], wb[1])
        ent[0x0014] = (UNDEF, bytes(b))
    elif kind in ("0100", "0102", "0103"):
        b = bytearray(kind.encode() + r.randbytes(100))
        struct.pack_into(">4H", b, {"0100": 72, "0102": 10, "0103": 20}[kind], *wb)
        ent[0x0097] = (UNDEF, bytes(b))
    elif kind in ("0204", "0205"):
        ser, key = "".join(r.choice("0123456789") for _ in range(r.randrange(1, 9))), r.randrange(1 << 32)
        b = bytearray(r.randbytes(280))
        struct.pack_into(">4H", b, 6 if kind == "0204" else 14, *wb)
        k = key.to_bytes(4, "little")
        ci, cj, ck = SERIAL[int(ser) & 255], KEYMAP[k[0] ^ k[1] ^ k[2] ^ k[3]], 0x60
        for i in range(280):
            cj = (cj + ci * ck) & 255
            ck += 1
            b[i] ^= cj
        ent[0x0097] = (UNDEF, kind.encode() + r.randbytes(280 if kind == "0204" else 0) + bytes(b))
        ent[0x001d] = (ASCII, ser)
        ent[0x00a7] = (LONG, key)
    c.f.update(bps=bps, black=black, crop=crop, kind=kind, wb=wb)
    bo = b"II*\0" if e == "<" else b"MM\0*"
    note = b"Nikon\0\2\x10\0\0" + bo + struct.pack(e + "I", 8) + directory(ent, e, 8)
    data = c.raster(size)
    raw = {256: (LONG, w), 257: (LONG, h), 258: (SHORT, bps), 259: (SHORT, 1 if "msb32" not in hints else r.choice([1, 34713])), 278: (LONG, h), 33422: (BYTE, [0, 1, 1, 2])}
    return tiff.build([tiff.Ifd(c.names(), subs={**c.more(note), 330: [tiff.Ifd(raw, strips=[data])]})], e)


def rw2(c):
    r = c.r
    w, h = c.size(10, 10, 4)
    if r.random() < .8:
        mode = r.choice([m for m in c.cams if m != "dng"] or [""])
        lo, hi = {"1:1": (90, 124), "4:3": (125, 144), "3:2": (145, 164), "16:9": (165, 200), "": (100, 200)}[mode]
        h = c.h = max(4, w * 100 // r.randrange(lo, hi + 1))
    black = some(r, levels(r, 3), .8)
    cfa = r.choice([0, 1, 2, 3, 4])
    two = r.random() < .5
    R, G, B = words(r, 3, 1, 4000)
    if not two:
        G = 256
    area = some(r, [r.randrange(0, w // 2), r.randrange(0, h // 2), r.randrange(w // 2, w + 1), r.randrange(h // 2, h + 1)], .6)
    crop = some(r, [r.randrange(0, w // 2), r.randrange(0, h // 2), r.randrange(w // 2, w + 1), r.randrange(h // 2, h + 1)], .5)
    n = r.choice([w * h * 2, w * h * 8 // 5])
    c.f.update(w=w, h=h, black=black, cfa=cfa, r=R, g=G, b=B, area=area, crop=crop, bytes=n)
    t = {**c.names(), 2: (SHORT, w), 3: (SHORT, h), 10: (SHORT, 12)}
    if cfa:
        t[9] = (SHORT, cfa)
    if black:
        t.update({0x1c + k: (SHORT, v) for k, v in enumerate(black)})
    t.update({0x24: (SHORT, R), 0x25: (SHORT, G), 0x26: (SHORT, B)} if two else {0x11: (SHORT, R), 0x12: (SHORT, B)})
    if area:
        t.update({5: (SHORT, area[0]), 4: (SHORT, area[1]), 7: (SHORT, area[2]), 6: (SHORT, area[3])})
    if crop:
        t.update({0x30: (SHORT, crop[0]), 0x2f: (SHORT, crop[1]), 0x32: (SHORT, crop[2]), 0x31: (SHORT, crop[3])})
    e = "<"
    data = c.raster(n)
    f = tiff.build([tiff.Ifd({**t, 273: (LONG, 4096)}, subs=c.more())], e, 85)
    return f.ljust(4096, b"\0") + data


def dcs(c):
    e = c.order()
    w, h = c.size(2)
    table = sorted(words(c.r, 256, 0)) if c.r.random() < .5 else [c.r.randrange(20) + 25 * i for i in range(256)]
    c.f["table"] = table
    t = {**c.names(), 0x0123: (SHORT, table)}
    data = c.raster(w * h)
    return tiff.build([tiff.Ifd(t, subs={**c.more(), 330: [tiff.Ifd({254: (LONG, 0), 256: (LONG, w), 257: (LONG, h)}, strips=[data])]})], e)


WRITERS = {"MEF": mef, "ERF": erf, "MRW": mrw, "3FR": fff, "KDC": kdc, "PEF": pef, "SRW": srw, "ORF": orf, "ARI": ari, "MOS": mos, "ARW": arw, "NEF": nef, "RW2": rw2, "DCS": dcs}


def format_of(key, cams):
    """the format this module writes for a camera"""
    make, model = key
    c = cams.get("") or next(iter(cams.values()))
    u = make.upper()
    if any(x["masked"] for x in cams.values()):
        return None
    if u.startswith("MAMIYA"):
        return "MEF" if make == "Mamiya-OP Co.,Ltd." else "MOS" if make == "Mamiya" else None
    if u.startswith("SEIKO EPSON"):
        return "ERF"
    if "MINOLTA" in u:
        return None if c["raw"][0] else "MRW"
    if u == "HASSELBLAD":
        return "3FR" if "uncompressed" in c["hints"] else None
    if make == "EASTMAN KODAK COMPANY":
        return None if c["model"] in ("DC120", "DC50") else "KDC"
    if make == "KODAK":
        return "DCS"
    if u.startswith("PENTAX") or u.startswith("RICOH"):
        return None if c["filesize"] else "PEF"
    if u.startswith("SAMSUNG"):
        return "SRW"
    if u.startswith("OLYMPUS") or u.startswith("OM DIGITAL"):
        return "ORF"
    if u.startswith("ARRI"):
        return "ARI"
    if u in ("LEAF",):
        return "MOS"
    if u == "SONY":
        return None if c["filesize"] or model in ("DSLR-A100", "DSC-F828") else "ARW"
    if u.startswith("NIKON"):
        return None if c["filesize"] or model == "NIKON D100" else "NEF"
    if u.startswith("PANASONIC") or u.startswith("LEICA"):
        return "RW2"
    return None
