"""Independent TIFF/DNG synthesiser and strict parser (no code shared with the implementation)."""
import struct

SIZES = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 1, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8, 13: 4, 16: 8, 17: 8, 18: 8}
BYTE, ASCII, SHORT, LONG, RATIONAL, SBYTE, UNDEF, SSHORT, SLONG, SRATIONAL, FLOAT, DOUBLE = range(1, 13)


UNIT = {1: 1, 2: 1, 3: 2, 4: 4, 5: 4, 6: 1, 7: 1, 8: 2, 9: 4, 10: 4, 11: 4, 12: 8}


class Raw(bytes):
    """Value bytes, most significant byte of every number first."""


def enc(typ, vals, e="<"):
    if isinstance(vals, Raw):
        u = UNIT[typ]
        b = vals if e == ">" else b"".join(vals[i:i + u][::-1] for i in range(0, len(vals), u))
        return bytes(b), len(vals) // SIZES[typ]
    if typ == ASCII:
        b = vals if isinstance(vals, bytes) else vals.encode() + b"\0"
        return b, len(b)
    if typ in (UNDEF, BYTE) and isinstance(vals, (bytes, bytearray)):
        return bytes(vals), len(vals)
    vals = list(vals) if isinstance(vals, (list, tuple)) else [vals]
    if typ in (RATIONAL, SRATIONAL):
        if vals and not isinstance(vals[0], (list, tuple)):
            vals = [vals]
        f = "I" if typ == RATIONAL else "i"
        return b"".join(struct.pack(e + f + f, *v) for v in vals), len(vals)
    f = {1: "B", 3: "H", 4: "I", 6: "b", 7: "B", 8: "h", 9: "i", 11: "f", 12: "d", 13: "I"}[typ]
    return struct.pack(e + f * len(vals), *vals), len(vals)


class Ifd:
    """Entries: tag -> (type, values). subs: list of Ifd linked from tag 330 (or another). blobs: data areas."""

    def __init__(self, entries=None, strips=None, subs=None, tiles=None):
        self.e = dict(entries or {})
        self.strips = strips
        self.tiles = tiles
        self.subs = subs or {}   # tag -> [Ifd]
        self.order = None        # order in which the data blocks are placed
        self.blockgap = b""      # bytes between data blocks
        self.otype = LONG        # type of offsets and counts
        self.pack = False        # data blocks follow each other without alignment


def build(ifds, e="<", magic=42, gap=b"", bigfirst=False):
    """Serialise a chain of root IFDs. Returns bytes."""
    out = bytearray(struct.pack(e + "2sHI", b"II" if e == "<" else b"MM", magic, 0))
    out += gap

    def align():
        if len(out) % 2:
            out.append(0)

    def write(ifd):
        ent = dict(ifd.e)
        for tag, subs in ifd.subs.items():
            ent[tag] = (LONG, [write(s) for s in subs])
        for blobs, to, tb in ((ifd.strips, 273, 279), (ifd.tiles, 324, 325)):
            if blobs is not None:
                offs = [0] * len(blobs)
                align()
                for k in ifd.order or range(len(blobs)):
                    if not ifd.pack:
                        align()
                    offs[k] = len(out)
                    out.extend(blobs[k])
                    out.extend(ifd.blockgap)
                ent[to] = (ifd.otype, offs)
                ent[tb] = (ifd.otype, [len(b) for b in blobs])
        rec = []
        for tag in sorted(ent):
            typ, vals = ent[tag]
            raw, n = enc(typ, vals, e)
            if len(raw) <= 4:
                rec.append(struct.pack(e + "HHI", tag, typ, n) + raw.ljust(4, b"\0"))
            else:
                align()
                o = len(out)
                out.extend(raw)
                rec.append(struct.pack(e + "HHII", tag, typ, n, o))
        align()
        o = len(out)
        out.extend(struct.pack(e + "H", len(rec)) + b"".join(rec) + struct.pack(e + "I", 0))
        return o

    prev = 4
    for i in ifds:
        o = write(i)
        struct.pack_into(e + "I", out, prev, o)
        prev = o + 2 + 12 * struct.unpack_from(e + "H", out, o)[0]
    return bytes(out)


class Bad(Exception):
    pass


class Entry:
    __slots__ = ("tag", "typ", "n", "raw", "off", "e")

    def __init__(s, tag, typ, n, raw, off, e):
        s.tag, s.typ, s.n, s.raw, s.off, s.e = tag, typ, n, raw, off, e

    @property
    def v(s):
        t = s.typ
        if t in (ASCII, UNDEF):
            return bytes(s.raw)
        if t in (RATIONAL, SRATIONAL):
            f = "I" if t == RATIONAL else "i"
            x = struct.unpack(s.e + f * (2 * s.n), s.raw)
            return [(x[2 * i], x[2 * i + 1]) for i in range(s.n)]
        f = {1: "B", 3: "H", 4: "I", 6: "b", 8: "h", 9: "i", 11: "f", 12: "d", 13: "I", 16: "Q", 17: "q", 18: "Q"}[t]
        return list(struct.unpack(s.e + f * s.n, s.raw))

    @property
    def s(s):
        return bytes(s.raw).split(b"\0")[0].decode("utf8", "replace")


class Parsed:
    def __init__(s):
        s.ent = {}
        s.sub = {}
        s.off = 0
        s.next = 0

    def get(s, tag, default=None):
        return s.ent[tag].v if tag in s.ent else default

    def one(s, tag, default=None):
        v = s.get(tag)
        return default if v is None else v[0]

    def all(s):
        yield s
        for l in s.sub.values():
            for x in l:
                yield from x.all()


class File:
    """Strict parse. .problems collects violations of the TIFF/DNG well-formedness rules;
    .extents is the list of (start, end, what) byte ranges used."""

    def __init__(s, data, subtags=(330, 34665, 34853, 40965)):
        s.d = data
        s.problems = []
        s.extents = [(0, 8, "header")]
        s.roots = []
        if len(data) < 8:
            raise Bad("shorter than a TIFF header")
        if data[:2] == b"II":
            s.e = "<"
        elif data[:2] == b"MM":
            s.e = ">"
        else:
            raise Bad("no byte order mark")
        if struct.unpack_from(s.e + "H", data, 2)[0] != 42:
            raise Bad("bad magic")
        off = struct.unpack_from(s.e + "I", data, 4)[0]
        seen = set()
        while off:
            if off in seen:
                raise Bad("IFD chain is cyclic")
            seen.add(off)
            p = s.ifd(off, subtags, 0, "ifd%d" % len(s.roots))
            s.roots.append(p)
            off = p.next

    def ifd(s, off, subtags, depth, name):
        if depth > 8:
            raise Bad("IFD nesting too deep")
        d, e = s.d, s.e
        if off + 2 > len(d):
            raise Bad("%s: IFD offset %d outside of file (%d)" % (name, off, len(d)))
        if off % 2:
            s.problems.append("%s: IFD at odd offset %d" % (name, off))
        n = struct.unpack_from(e + "H", d, off)[0]
        if n == 0:
            s.problems.append("%s: IFD without entries" % name)
        if off + 2 + 12 * n + 4 > len(d):
            raise Bad("%s: IFD of %d entries exceeds file" % (name, n))
        s.extents.append((off, off + 2 + 12 * n + 4, name))
        p = Parsed()
        p.off = off
        last = -1
        for i in range(n):
            o = off + 2 + 12 * i
            tag, typ, cnt = struct.unpack_from(e + "HHI", d, o)
            if tag <= last:
                s.problems.append("%s: tag %d after tag %d (must be strictly ascending)" % (name, tag, last))
            last = tag
            if typ not in SIZES:
                s.problems.append("%s: tag %d has unknown type %d" % (name, tag, typ))
                continue
            size = SIZES[typ] * cnt
            if cnt == 0:
                s.problems.append("%s: tag %d has no values" % (name, tag))
            if size <= 4:
                vo = o + 8
            else:
                vo = struct.unpack_from(e + "I", d, o + 8)[0]
                if vo + size > len(d):
                    s.problems.append("%s: tag %d data %d+%d outside of file (%d)" % (name, tag, vo, size, len(d)))
                    continue
                if vo % 2:
                    s.problems.append("%s: tag %d data at odd offset %d" % (name, tag, vo))
                s.extents.append((vo, vo + size, "%s.tag%d" % (name, tag)))
            p.ent[tag] = Entry(tag, typ, cnt, d[vo:vo + size], vo, e)
        p.next = struct.unpack_from(e + "I", d, off + 2 + 12 * n)[0]
        for t in subtags:
            if t in p.ent:
                p.sub[t] = []
                for k, so in enumerate(p.get(t)):
                    x = s.ifd(so, subtags, depth + 1, "%s/%d[%d]" % (name, t, k))
                    if x.next:
                        s.problems.append("%s: sub IFD %d[%d] has a successor" % (name, t, k))
                    p.sub[t].append(x)
        for to, tb in ((273, 279), (324, 325)):
            if to in p.ent or tb in p.ent:
                a, b = p.get(to), p.get(tb)
                if a is None or b is None or len(a) != len(b):
                    s.problems.append("%s: offsets tag %d and counts tag %d do not match" % (name, to, tb))
                    continue
                for k, (x, y) in enumerate(zip(a, b)):
                    if x + y > len(d):
                        s.problems.append("%s: data block %d %d+%d outside of file (%d)" % (name, k, x, y, len(d)))
                    elif y == 0:
                        s.problems.append("%s: data block %d is empty" % (name, k))
                    else:
                        s.extents.append((x, x + y, "%s.data%d[%d]" % (name, to, k)))
        return p

    def overlaps(s):
        ex = sorted(s.extents)
        return [(a, b) for a, b in zip(ex, ex[1:]) if b[0] < a[1]]

    def ifds(s):
        for r in s.roots:
            yield from r.all()
