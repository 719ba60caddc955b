"""Synthesise DNG inputs and read back the raw raster of DNG outputs, independently of the implementation."""
import struct, zlib
import numpy as np
from . import tiff, ljpeg
from .tiff import Ifd, SHORT, LONG, BYTE, ASCII, RATIONAL, SRATIONAL, UNDEF, FLOAT


def f24_of(f):
    """24-bit float (1-7-16) nearest below a float32 array of moderate normal numbers or zero; (bits, value)."""
    u = np.asarray(f, np.float32).view(np.uint32).astype(np.int64)
    sign, ex, fr = u >> 31, (u >> 23) & 255, u & 0x7fffff
    zero = ex < 127 - 62
    ex24 = np.where(zero, 0, ex - 127 + 63)
    fr24 = np.where(zero, 0, fr >> 7)
    bits = sign << 23 | ex24 << 16 | fr24
    val = (sign << 31 | np.where(zero, 0, ex) << 23 | fr24 << 7).astype(np.uint32).view(np.float32)
    return bits, val


def float_bytes(a, bps):
    """Big-endian bytes of every sample, shape (h, n, bps//8)."""
    a = np.asarray(a, np.float32)
    if bps == 32:
        return a.astype(">f4").view(np.uint8).reshape(a.shape[0], -1, 4)
    if bps == 16:
        return a.astype(">f2").view(np.uint8).reshape(a.shape[0], -1, 2)
    b = f24_of(a)[0]
    return np.stack([b >> 16, b >> 8 & 255, b & 255], axis=-1).astype(np.uint8)


def deflate(rows, bps, cpp, pred):
    """zlib with the floating point predictors 3, 34894, 34895: byte planes, then byte differences."""
    b = float_bytes(rows, bps)
    fac = cpp * {3: 1, 34894: 2, 34895: 4}[pred]
    out = b""
    for r in b:
        p = np.ascontiguousarray(r.T).reshape(-1).astype(np.int64)
        d = p.copy()
        d[fac:] = (p[fac:] - p[:-fac]) & 255
        out += d.astype(np.uint8).tobytes()
    return zlib.compress(out)


def pack(rows, bps, e, fmt=1):
    a = np.asarray(rows)
    if fmt == 3:
        b = float_bytes(a, bps)
        return (b if e == ">" else b[:, :, ::-1]).tobytes()
    if bps == 8:
        return a.astype(np.uint8).tobytes()
    if bps == 16:
        return a.astype("<u2" if e == "<" else ">u2").tobytes()
    if bps == 32:
        return a.astype("<f4" if e == "<" else ">f4").tobytes()
    out = b""
    for r in a.reshape(a.shape[0], -1):
        bits = "".join(format(int(v), "0%db" % bps) for v in r)
        bits += "0" * (-len(bits) % 8)
        out += int(bits, 2).to_bytes(len(bits) // 8, "big")
    return out


MATRIX = [(6722, 10000), (-635, 10000), (-963, 10000), (-4287, 10000), (12460, 10000), (2028, 10000), (-908, 10000), (2162, 10000), (5668, 10000)]


def make(px, e="<", bps=16, photometric=32803, cfa=(2, 2, bytes([0, 1, 1, 2])), layout=("strips", 0), comp=1, pred=1,
         active=None, crop=None, black=None, blackrep=None, white=None, neutral=((473635, 1000000), (1, 1), (624000, 1000000)),
         make="Acme", model="Model T", matrix=MATRIX, illum=21, extra=None, rootextra=None, sub=True, exif=None, gps=None, version=(1, 4, 0, 0), orientation=1,
         frames=None, linear_bits=None, fmt=None):
    """px: array (h, w) or (h, w, cpp). Returns DNG file bytes."""
    a = np.asarray(px)
    h, w = a.shape[:2]
    cpp = 1 if a.ndim == 2 else a.shape[2]
    flat = a.reshape(h, w * cpp)
    fmt = fmt or (3 if bps == 32 else 1)

    def raw_ifd(flat):
        ent = {254: (LONG, 0), 256: (LONG, w), 257: (LONG, h), 258: (SHORT, [bps] * cpp), 259: (SHORT, comp),
               262: (SHORT, photometric), 277: (SHORT, cpp), 284: (SHORT, 1)}
        if fmt == 3:
            ent[339] = (SHORT, [3] * cpp)
        if comp == 8:
            ent[317] = (SHORT, pred)
        i = Ifd(ent)
        kind, arg = layout
        if kind == "strips":
            rps = arg or h
            blobs = []
            for y in range(0, h, rps):
                part = flat[y:y + rps]
                blobs.append(enc(part))
            i.strips = blobs
            i.e[278] = (SHORT, rps)
        else:
            tw, th = arg
            blobs = []
            for y in range(0, h, th):
                for x in range(0, w, tw):
                    t = np.zeros((th, tw * cpp), dtype=flat.dtype)
                    part = flat[y:y + th, x * cpp:(x + tw) * cpp]
                    t[:part.shape[0], :part.shape[1]] = part
                    blobs.append(enc(t))
            i.tiles = blobs
            i.e[322] = (LONG, tw)
            i.e[323] = (LONG, th)
        if photometric == 32803:
            cw, ch, pat = cfa
            i.e[33421] = (SHORT, [ch, cw])
            i.e[33422] = (BYTE, bytes(pat))
            i.e[50710] = (BYTE, bytes([0, 1, 2]))
            i.e[50711] = (SHORT, 1)
        if active is not None:
            i.e[50829] = (LONG, active)   # top, left, bottom, right
        if crop is not None:
            i.e[50719] = (LONG, crop[:2])
            i.e[50720] = (LONG, crop[2:])
        if black is not None:
            i.e[50714] = (RATIONAL, black) if isinstance(black[0], (tuple, list)) else (LONG, black)
            if blackrep is not None:
                i.e[50713] = (SHORT, blackrep)
        if white is not None:
            i.e[50717] = (LONG, white)
        i.e.update(extra or {})
        return i

    def enc(part):
        if comp == 1:
            return pack(part, bps, e, fmt)
        if comp == 8:
            return deflate(part, bps, cpp, pred)
        if callable(pred):
            return pred(part, cpp, bps)
        return enc_lj(part, cpp, bps)

    def enc_lj(part, cpp, bps):
        hh = part.shape[0]
        ww = part.shape[1] // cpp
        return ljpeg.encode(part.tolist(), ww, hh, cpp, bps, pred)

    root = {254: (LONG, 1), 271: (ASCII, make), 272: (ASCII, model), 274: (SHORT, orientation), 50706: (BYTE, bytes(version)), 50707: (BYTE, bytes([1, 1, 0, 0])),
            50708: (ASCII, make + " " + model)}
    if neutral is not None:
        root[50728] = (RATIONAL, list(neutral))
    if matrix is not None:
        root[50721] = (SRATIONAL, matrix)
        root[50778] = (SHORT, illum)
    if orientation is None:
        del root[274]
    root.update(rootextra or {})
    r = raw_ifd(flat)
    subs = {}
    if exif is not None:
        subs[34665] = [Ifd(exif)]
    if gps is not None:
        subs[34853] = [Ifd(gps)]
    if sub:
        ri = Ifd(root, subs=dict(subs))
        # the root carries a tiny thumbnail so that it is an image IFD of its own
        ri.e.update({256: (LONG, 2), 257: (LONG, 2), 258: (SHORT, [8, 8, 8]), 259: (SHORT, 1), 262: (SHORT, 2), 277: (SHORT, 3), 278: (SHORT, 2), 284: (SHORT, 1)})
        ri.strips = [bytes(range(12))]
        ri.subs[330] = [r] + [raw_ifd(np.asarray(f).reshape(h, w * cpp)) for f in (frames or [])]
    else:
        ent = dict(root)
        ent.update(r.e)
        ri = Ifd(ent, strips=r.strips, tiles=r.tiles, subs=subs)
    return tiff.build([ri], e)


def find_raw(f):
    """The raw IFD of a parsed DNG (NewSubFileType 0)."""
    c = [i for i in f.ifds() if i.one(254) == 0 and 259 in i.ent]
    if len(c) != 1:
        raise tiff.Bad("%d raw IFDs" % len(c))
    return c[0]


def raster(f, i, blocks=None):
    """Decode the raster of a raw IFD: numpy array (h, w*cpp); the decoded data blocks are appended to blocks."""
    w, h = i.one(256), i.one(257)
    cpp, bps, comp = i.one(277, 1), i.get(258)[0], i.one(259)
    if len(set(i.get(258))) != 1 or len(i.get(258)) != cpp:
        raise tiff.Bad("BitsPerSample %r for %d samples" % (i.get(258), cpp))
    fmt = i.one(339, 1)
    tiles = 324 in i.ent
    if tiles:
        tw, th = i.one(322), i.one(323)
    else:
        tw, th = w, i.one(278, h)
    offs, cnts = i.get(324 if tiles else 273), i.get(325 if tiles else 279)
    nx, ny = -(-w // tw), -(-h // th)
    if len(offs) != nx * ny:
        raise tiff.Bad("%d data blocks for a %dx%d grid" % (len(offs), nx, ny))
    out = np.zeros((ny * th, nx * tw * cpp), dtype=np.float32 if fmt == 3 else np.int64)
    for k, (o, n) in enumerate(zip(offs, cnts)):
        blob = f.d[o:o + n]
        ty, tx = k // nx, k % nx
        rows = th if tiles else min(th, h - ty * th)
        if comp == 7:
            lw, lh, lc, prec, pred, lr = ljpeg.decode(blob)
            if prec != bps:
                raise tiff.Bad("LJPEG precision %d, BitsPerSample %d" % (prec, bps))
            if lw * lc * lh != tw * cpp * rows or (lw * lc) % (cpp) or lh > rows * 2:
                raise tiff.Bad("LJPEG frame %dx%dx%d for a %dx%dx%d block" % (lw, lh, lc, tw, rows, cpp))
            blk = np.array(lr, dtype=np.int64).reshape(rows, tw * cpp)
        elif comp == 1:
            e = f.e
            if fmt == 3:
                blk = np.frombuffer(blob, dtype=e + "f4").reshape(rows, tw * cpp)
            elif bps == 16:
                blk = np.frombuffer(blob, dtype=e + "u2").reshape(rows, tw * cpp)
            elif bps == 8:
                blk = np.frombuffer(blob, dtype=np.uint8).reshape(rows, tw * cpp)
            else:
                rb = -(-(tw * cpp * bps) // 8)
                blk = np.zeros((rows, tw * cpp), dtype=np.int64)
                for y in range(rows):
                    b = blob[y * rb:(y + 1) * rb]
                    v = int.from_bytes(b, "big")
                    for x in range(tw * cpp):
                        blk[y, x] = (v >> (len(b) * 8 - (x + 1) * bps)) & ((1 << bps) - 1)
        else:
            raise tiff.Bad("compression %d" % comp)
        if blocks is not None:
            blocks.append(blk.reshape(-1))
        out[ty * th:ty * th + rows, tx * tw * cpp:(tx + 1) * tw * cpp] = blk
    return out[:h, :w * cpp]
