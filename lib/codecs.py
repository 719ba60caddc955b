"""Writers of camera codec streams: each returns (number of the decoder, file of `unwrapped`, record for spec/CodecTrace.tla)."""
import re, struct


class Bits:
    def __init__(self):
        self.s = []

    def put(self, v, n):
        assert 0 <= v < (1 << n) or n == 0, (v, n)
        if n:
            self.s.append(format(v, "0%db" % n))

    def __len__(self):
        return sum(map(len, self.s))

    def msb(self):
        s = "".join(self.s)
        s += "0" * (-len(s) % 8)
        return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))


def words(b, n):
    b += b"\0" * (-len(b) % n)
    return b"".join(b[i:i + n][::-1] for i in range(0, len(b), n))


def cat(d):
    return abs(d).bit_length()


def put_diff(bw, d, n):
    bw.put(d if d > 0 else d + (1 << n) - 1, n) if n else None


def canon(cnt, vals):
    out, c, i = {}, 0, 0
    for l in range(1, 17):
        for _ in range(cnt[l - 1]):
            if i < len(vals):
                out.setdefault(vals[i], (c, l))
            c, i = c + 1, i + 1
        c *= 2
    return out


def walk(r, n, hi, lo=0):
    """n samples within lo..hi: smooth parts, jumps, extremes"""
    v, out = r.randrange(lo, hi + 1), []
    k = r.choice([1, 3, 20, 200])
    for _ in range(n):
        c = r.random()
        if c < .04:
            v = r.choice([lo, hi, lo + 1, hi - 1])
        elif c < .1:
            v = r.randrange(lo, hi + 1)
        elif c < .12:
            k = r.choice([0, 1, 3, 20, 200, 2000])
        else:
            v += r.randrange(-k, k + 1)
        v = min(max(v, lo), hi)
        out.append(v)
    return out


def head(n, w, h):
    return struct.pack("<HHH", n, w, h)


TAIL = b"\0" * 64


def arw1(r, w, h):
    bw, s = Bits(), 0
    px = walk(r, w * h, 4095)
    for v in px:
        d = v - s
        s = v
        n = cat(d)
        if n == 0:
            bw.put(1, 2), bw.put(1, 1)
        elif n == 3:
            bw.put(1, 2), bw.put(0, 1)
        elif n < 3:
            bw.put(4 - n, 2)
        else:
            bw.put(0, 2)
            z = n - 4
            bw.put(0, z)
            if z < 13:
                bw.put(1, 1)
        put_diff(bw, d, n)
    b = bw.msb() + TAIL
    return 21, head(21, w, h) + b, {"codec": "arw1", "data": list(b)}


def arw2(r, w, h):
    out = b""
    for _ in range(w * h // 16):
        k = r.randrange(5)
        lo = r.randrange(0, 2048)
        hi = r.choice([lo, min(2047, lo + r.choice([1, 127, 128, 129, 255, 256, 511, 512, 1023, 1024])), r.randrange(lo, 2048), 2047])
        ih, il = r.sample(range(16), 2)
        v = hi | lo << 11 | ih << 22 | il << 26
        for i in range(14):
            v |= (r.choice([0, 127, r.randrange(128)]) if k else r.randrange(128)) << (30 + 7 * i)
        out += v.to_bytes(16, "little")
    c = sorted(r.sample(range(1, 12), 4)) if r.random() < .8 else sorted(r.sample(range(1, 4095), 4))
    b = out + TAIL
    return 22, head(22, w, h) + struct.pack("<4H", *c) + b, {"codec": "arw2", "data": list(b), "curve": [0] + c + [4095]}


def srf(r, w, h):
    key = r.choice([0, 1, 0xffffffff, 0x80000000, r.randrange(1 << 32)])
    n = w * h * 2
    b = r.randbytes(n + 8)
    return 23, head(23, w, h) + struct.pack("<IH", key, n) + b"\0" * 4 + b, {"codec": "srf", "data": list(b), "key": list(struct.pack("<I", key)), "len": n}


def orf(r, w, h):
    bw = Bits()
    t = walk(r, w * h, 4095)
    px = []
    for k in range(w * h):
        y, x = divmod(k, w)
        if x == 0:
            carry = [[0, 0, 0], [0, 0, 0]]
        c = carry[x & 1]
        i = 2 if c[2] < 3 else 0
        nb = 2 + i
        while (c[0] & 0xffff) >> (nb + i):
            nb += 1
        nb = min(nb, 16)
        q = lambda dy, dx: px[(y - dy) * w + x - dx]
        if y < 2 and x < 2:
            p = 0
        elif y < 2:
            p = q(0, 2)
        elif x < 2:
            p = q(2, 0)
        else:
            W, N, NW = q(0, 2), q(2, 0), q(2, 2)
            if W < NW < N or N < NW < W:
                p = W + N - NW if abs(W - NW) > 32 or abs(N - NW) > 32 else (W + N) >> 1
            else:
                p = W if abs(W - NW) > abs(N - NW) else N
        s = t[k] if r.random() < .9 else min(max(p + r.randrange(-3, 4), 0), 4095)
        low = (s - p) & 3
        diff = (s - p) >> 2
        v = diff - c[1]
        sign = v < 0
        cv = ~v if sign else v
        high = cv >> nb
        bw.put(int(sign), 1), bw.put(low, 2)
        if high < 12:
            bw.put(0, high), bw.put(1, 1)
        else:
            bw.put(0, 12)
            bw.put(high << 1 | r.randrange(2), 16 - nb)
        bw.put(cv & ((1 << nb) - 1), nb)
        carry[x & 1] = [cv, (diff * 3 + c[1]) >> 5, 0 if cv > 16 else c[2] + 1]
        px.append(s)
    b = head(24, w, h) + b"\0" + bw.msb() + TAIL
    return 24, b, {"codec": "orf", "data": list(b)}


def srw1(r, w, h):
    rows, out = [], []
    for y in range(h):
        bw = Bits()
        ln = [7 if y < 2 else 4] * 4
        row = [0] * w
        t = walk(r, w, 4095)
        for g in range(w // 16):
            up = y >= 2 and r.random() < .5
            bw.put(int(up), 1)
            ops, new = [], []
            for i in range(4):
                o = [0] + [1] * (ln[i] < 13) + [2] * (ln[i] > 0) + [3]
                o = r.choice(o)
                n = {0: ln[i], 1: ln[i] + 1, 2: ln[i] - 1, 3: r.choice([0, 1, 4, 9, 12, 13])}[o]
                ops.append(o), new.append(n)
            for o in ops:
                bw.put(o, 2)
            for o, n in zip(ops, new):
                if o == 3:
                    bw.put(n, 4)
            ln = new
            for c in list(range(0, 16, 2)) + list(range(1, 16, 2)):
                n = ln[(0 if c % 2 == 0 else 2) + c // 8]
                if up:
                    p = out[(y - (1 if c % 2 == 0 else 2)) * w + g * 16 + c]
                else:
                    p = 128 if g == 0 else row[g * 16 - (2 if c % 2 == 0 else 1)]
                d = 0 if n == 0 else min(max(t[g * 16 + c] - p, -(1 << (n - 1))), (1 << (n - 1)) - 1)
                if not 0 <= p + d <= 4095:
                    d = 0
                bw.put(d & ((1 << n) - 1), n)
                row[g * 16 + c] = p + d
        out += row
        rows.append(words(bw.msb(), 4))
    order = list(range(h))
    r.shuffle(order)
    data, offs = b"", [0] * h
    for y in order:
        offs[y] = len(data)
        data += rows[y] + b"\0" * (4 * r.randrange(3))
    data += TAIL
    return 25, head(25, w, h) + struct.pack("<%dI" % h, *offs) + data, {"codec": "srw1", "data": list(data), "offs": offs}


SRW2 = [(3, 4), (3, 7), (2, 6), (2, 5), (4, 3), (6, 0), (7, 9), (8, 10), (9, 11), (10, 12), (10, 13), (5, 1), (4, 8), (4, 2)]


def cross(r, w, h, hi, put, up=None, lo=0):
    """put(difference, row) writes it"""
    t = walk(r, w * h, hi, lo)
    for k in range(w * h):
        y, x = divmod(k, w)
        p = t[k - 2] if x >= 2 else t[k - 2 * w] if y >= 2 else up[(y & 1) + 2 * x] if up else 0
        g = put(t[k] - p, y)
        if g is not None:
            t[k] = p + g
    return t


def srw2(r, w, h):
    codes, c = {}, 0
    for l, n in SRW2:
        codes[n] = (c >> (10 - l), l)
        c += 1 << (10 - l)
    bw = Bits()

    def put(d, y):
        n = cat(d)
        bw.put(*codes[n])
        put_diff(bw, d, n)
    cross(r, w, h, 4095, put)
    b = bw.msb() + TAIL
    return 26, head(26, w, h) + b, {"codec": "srw2", "data": list(b)}


def srw3(r, w, h):
    bits = r.choice([12, 14])
    opt = r.randrange(8)
    init = r.randrange(1 << bits)
    bw = Bits()
    for v, n in ((1, 16), (0, 4), (bits - 1, 4), (0, 4), (0, 4), (w, 16), (h, 16), (w, 16), (0, 4), (opt, 4), (0, 8), (0, 8), (0, 8), (0, 2), (init, 14)):
        bw.put(v, n)
    data = words(bw.msb(), 4)
    OFF, AVG = [-4, -2, -2, 0, 0, 2, 4], [0, 0, 1, 0, 1, 0, 0]
    for y in range(h):
        data += b"\0" * (-len(data) % 16)
        bw = Bits()
        scale, motion = 0, 7
        mode = [[7 if y < 2 else 4] * 2 for _ in range(3)]
        for col in range(0, w, 16):
            if not opt & 4 and col % 64 == 0:
                i = r.choice([0, 0, 1 if scale > 1 else 0, 2, 3])
                bw.put(i, 2)
                if i == 3:
                    scale = r.choice([0, 1, 5])
                    bw.put(scale, 12)
                else:
                    scale += [0, -2, 2][i]

            def fits(m):
                if m == 7:
                    return True
                xs = [col + i + OFF[m] + (0 if (y + i) & 1 else -1 if i & 1 else 1) for i in range(16)]
                return y >= 2 and all(0 <= x and x + 2 * AVG[m] < w for x in xs)
            can = [m for m in range(8) if fits(m)]
            if opt & 2:
                motion = r.choice([m for m in can if m in (3, 7)])
                bw.put(int(motion == 3), 1)
            elif motion in can and r.random() < .4:
                bw.put(1, 1)
            else:
                motion = r.choice(can)
                bw.put(0, 1), bw.put(motion, 3)
            lens = [0] * 4
            zero = not opt & 1 and r.random() < .2
            if not opt & 1:
                bw.put(int(zero), 1)
            if not zero:
                fl = []
                for i in range(4):
                    c = i >> 1 if y & 1 else ((i >> 1) + 2) % 3
                    a = mode[c][0]
                    f = r.choice([0] + [1] * (a + 1 <= bits + 1) + [2] * (a > 0) + [3])
                    n = {0: a, 1: a + 1, 2: a - 1, 3: r.choice([0, 1, 5, 12, bits + 1])}[f]
                    fl.append((f, n))
                    lens[i] = n
                    mode[c] = [mode[c][1], n]
                for f, n in fl:
                    bw.put(f, 2)
                for f, n in fl:
                    if f == 3:
                        bw.put(n, 4)
            for i in range(16):
                n = lens[i >> 2]
                bw.put(r.choice([0, r.randrange(1 << n), (1 << n) - 1, r.randrange(1 << min(n, 3))]), n)
        data += words(bw.msb(), 4)
    data += TAIL
    return 27, head(27, w, h) + data, {"codec": "srw3", "data": list(data)}


def pana4(r, w, h):
    n = w * h // 14
    b = b"".join(bytes(r.choice([0, 0, r.randrange(256)]) for _ in range(16)) if r.random() < .3 else r.randbytes(16) for _ in range(n))
    split = r.random() < .3
    k = 30 if split else 29
    data = bytearray(0x4000 + 64)
    for i in range(len(b)):
        data[(i + 0x1ff8) % 0x4000 if split else i] = b[i]
    rec = list(data[:0x4000]) if split else list(b)
    return k, head(k, w, h) + bytes(data), {"codec": "pana4", "data": rec, "split": split}


def kodak(r, w, h):
    table = sorted(r.sample(range(0, 65536, 64), 1023))
    table = [0] + [x + 32 for x in table]
    data = b""
    for y in range(h):
        t = walk(r, w, 1023)
        d = [t[i] - (t[i - 2] if i >= 2 else 0) for i in range(w)]
        ln = [cat(x) for x in d]
        data += bytes(ln[i] | ln[i + 1] << 4 for i in range(0, w, 2))
        s, n = 0, 0
        for x, l in zip(d, ln):
            s |= (x if x > 0 else x + (1 << l) - 1) << n if l else 0
            n += l
        pre = 16 if w % 8 == 4 else 0
        n = pre + 32 * ((max(n - pre, 0) + 31) // 32)
        data += words(s.to_bytes(n // 8, "little"), 2)
    data += TAIL
    return 31, head(31, w, h) + struct.pack("<1024H", *table) + data, {"codec": "kodak", "data": list(data), "table": table}


PENTAX = canon([0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0], [3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12])


def pef(r, w, h):
    bw = Bits()

    def put(d, y):
        n = cat(d)
        bw.put(*PENTAX[n])
        put_diff(bw, d, n)
    cross(r, w, h, 4095, put)
    b = bw.msb() + TAIL
    return 36, head(36, w, h) + b, {"codec": "pef", "data": list(b)}


def lengths(r, n, most):
    """code lengths of a complete code of n symbols"""
    l = [1, 1]
    while len(l) < n:
        i = r.choice([k for k in range(len(l)) if l[k] < most])
        l[i] += 1
        l.append(l[i])
    return sorted(l)


def pefwith(r, w, h):
    n = r.choice([13, 13, 14, 15])
    ls = lengths(r, n, 12)
    syms = list(range(n))
    r.shuffle(syms)
    code, c, last = {}, 0, ls[0]
    for s, l in zip(syms, ls):
        c <<= l - last
        last = l
        code[s] = (c, l)
        c += 1
    be = r.random() < .5
    e = ">" if be else "<"
    t = struct.pack(e + "H", (n - 12) & 0xffff) + r.randbytes(12) + b"".join(struct.pack(e + "H", code[s][0] << (12 - code[s][1])) for s in range(n)) + bytes(code[s][1] for s in range(n))
    t = t.ljust(64, b"\0")
    bw = Bits()

    def put(d, y):
        k = cat(d)
        bw.put(*code[k])
        put_diff(bw, d, k)
    cross(r, w, h, 4095 if n == 13 else 8191, put)
    b = bw.msb() + TAIL
    k = 38 if be else 37
    return k, head(k, w, h) + t + b, {"codec": "pefwith", "data": list(b), "huff": list(t), "be": be}


NIKON = [([0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0], [5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12]),
         ([0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0], [0x39, 0x5a, 0x38, 0x27, 0x16, 5, 4, 3, 2, 1, 0, 11, 12, 12]),
         ([0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0], [5, 4, 6, 3, 7, 2, 8, 1, 9, 0, 10, 11, 12]),
         ([0, 1, 4, 3, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0], [5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14]),
         ([0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0], [8, 0x5c, 0x4b, 0x3a, 0x29, 7, 6, 5, 4, 3, 2, 1, 0, 13, 14]),
         ([0, 1, 4, 2, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0], [7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14])]


def nef(r, w, h):
    bps = r.choice([12, 14])
    be = r.random() < .5
    e = ">" if be else "<"
    kind = r.choice(["lossless", "direct", "coarse", "coarse", "skip"])
    v0, v1 = {"lossless": (70, 48), "direct": (r.choice([65, 68]), 16), "coarse": (68, r.choice([32, 64])), "skip": (73, 88)}[kind]
    real = bps - 2 if (v0, v1) == (68, 64) else bps
    up = [r.randrange(1 << real) for _ in range(4)]
    split = 0
    if kind == "lossless":
        n, pts = 0, []
    elif kind == "coarse":
        n = r.choice([257, 129, 65, 17]) if bps == 12 else r.choice([257, 129])
        pts = [min(65535, i * (60000 // (n - 1)) + 3) for i in range(n)]
        split = r.choice([0, r.randrange(1, h + 1), h, h + 3])
    else:
        n = r.choice([800, 500, 1 << 10]) if kind == "direct" else r.choice([300, 900])
        pts = sorted(r.sample(range(0, 65536, 32), n))
    hi = min((1 << real) - 1, n - 1) if kind in ("direct", "skip") else (1 << real) - 1
    up = [min(u, hi) for u in up]
    m = bytes([v0, v1]) + (r.randbytes(2110) if kind == "skip" else b"") + struct.pack(e + "4H", *up) + struct.pack(e + "H", n) + struct.pack(e + "%dH" % n, *pts)
    m = bytearray(m.ljust(4096, b"\0"))
    if kind == "coarse":
        m[562:564] = struct.pack(e + "H", split)
    tree = (2 if v0 == 70 else 0) + (3 if bps == 14 else 0)
    bw = Bits()

    def put(d, y):
        cnt, vals = NIKON[tree + (1 if split and y >= split else 0)]
        c = canon(cnt, vals)
        k = cat(d)
        s = [v for v in vals if v & 15 == k][-1]
        sh = s >> 4
        bw.put(*c[s])
        if not k:
            return
        raw = d if d > 0 else d + (1 << k) - (0 if sh else 1)
        raw = min(max(raw >> sh, 0), (1 << (k - sh)) - 1)
        bw.put(raw, k - sh)
        g = ((raw << 1) + 1) << sh >> 1
        if not g & (1 << (k - 1)):
            g -= (1 << k) - (0 if sh else 1)
        return g
    t = cross(r, w, h, hi, put, up)
    if max(t) > hi and kind in ("direct", "skip"):
        return nef(r, w, h)
    b = bw.msb() + TAIL
    k = 48 + (bps == 14) + 2 * be
    return k, head(k, w, h) + bytes(m) + b, {"codec": "nef", "data": list(b), "meta": list(m), "be": be, "bps": bps}


def _crw_tables():
    text = open(__file__.replace("lib/codecs.py", "spec/Codecs.tla")).read()
    out = []
    for name in ("CrwFirst", "CrwSecond"):
        body = text[text.index(name + " == <<"):]
        body = body[:body.index(") >>") + 1]
        c = re.findall(r"Canon\(\s*<<(.*?)>>,\s*<<(.*?)(?:>>\)|$)", body, re.S)
        out.append([([int(x) for x in a.replace("\n", " ").split(",")], [int(x) for x in b.replace(">>)", "").replace("\n", " ").split(",")]) for a, b in c])
    return out


CRW = None


def crw(r, w, h):
    global CRW
    CRW = CRW or [[canon(*t) for t in x] for x in _crw_tables()]
    table = r.randrange(3)
    first, second = CRW[0][table], CRW[1][table]
    low = r.random() < .5
    px = walk(r, w * h, 1023)
    bw, carry, base = Bits(), 0, [512, 512]
    for k in range(0, w * h, 64):
        d = []
        b2 = list(base)
        quiet = r.choice([0, .3, .9, .97])
        for i in range(64):
            if (k + i) % w == 0:
                b2 = [512, 512]
            x = px[k + i] - b2[i & 1]
            if i and r.random() < quiet:
                x = 0
            if i == 0:
                x -= carry
            d.append(x)
            if i == 0:
                carry += x
                b2[0] += carry
            else:
                b2[i & 1] += x
            px[k + i] = b2[i & 1]
        # write; differences without a symbol become 0 (and the samples follow)
        bw.put(*first[cat(d[0])])
        put_diff(bw, d[0], cat(d[0]))
        i = 1
        while i < 64:
            j = i
            while j < 64 and d[j] == 0:
                j += 1
            if j == 64:
                if 0 in second:
                    bw.put(*second[0])
                    break
            while j - i >= 16 and 0xf0 in second:
                bw.put(*second[0xf0])
                i += 16
            if j == 64:
                break
            s = (j - i) << 4 | cat(d[j])
            if s not in second or s == 0xff:
                return crw(r, w, h)
            bw.put(*second[s])
            put_diff(bw, d[j], cat(d[j]))
            i = j + 1
        base = b2
    raw = bw.msb()
    st = raw.replace(b"\xff", b"\xff\0") + b"\0" * 64
    lb = r.randbytes(w * h // 4) if low else b""
    k = 39 + table + 3 * low
    f = bytearray(540 + len(lb)) + st
    f[:6] = head(k, w, h)
    f[26:26 + len(lb)] = lb
    if low and 26 + len(lb) > 540 + len(lb):
        raise AssertionError
    return k, bytes(f), {"codec": "crw", "data": list(st), "table": table, "low": list(lb)}


def leaf(r, w, h):
    prec = r.choice([12, 14, 16])
    tabs = []
    for _ in range(2):
        n = prec + 2 if prec < 16 else 16
        ls = lengths(r, n + 1, 15)[:n]
        vals = list(range(n))
        r.shuffle(vals)
        tabs.append(([ls.count(l) for l in range(1, 17)], vals))
    codes = [canon(*t) for t in tabs]
    strips = []
    for y0 in range(0, h, 8):
        n = min(8, h - y0)
        t = walk(r, w * n, (1 << prec) - 1)
        bw = Bits()
        for k in range(w * n):
            y, x = divmod(k, w)
            p = t[k - 2] if x >= 2 else t[k - w] if y else 1 << (prec - 1)
            c = cat(t[k] - p)
            if c not in codes[x & 1]:
                t[k] = p
                c = 0
            bw.put(*codes[x & 1][c])
            put_diff(bw, t[k] - p, c)
        strips.append(bw.msb().replace(b"\xff", b"\xff\0"))
    j = b"\xff\xd8"
    j += b"".join(b"\xff\xc4" + struct.pack(">HB", 3 + 16 + len(v), i) + bytes(c) + bytes(v) for i, (c, v) in enumerate(tabs))
    j += b"\xff\xc3" + struct.pack(">HBHHB", 8 + 6, prec, h, w // 2, 2) + bytes([0, 0x11, 0, 1, 0x11, 0])
    j += b"\xff\xda" + struct.pack(">HB", 6 + 4, 2) + bytes([0, 0, 1, 0x10, 1, 0, 0])
    for i, s in enumerate(strips):
        j += s + (b"\xff" + bytes([0xd0 + i % 8]) if i < len(strips) - 1 else b"\xff\xd9")
    inter = r.random() < .5
    k = 46 if inter else 45
    return k, head(k, w, h) + j + b"\0" * 32, {"codec": "leaf", "strips": [list(s) + [255, 217] for s in strips], "data": [], "cnt": [list(t[0]) for t in tabs], "vals": [list(t[1]) for t in tabs], "start": 1 << (prec - 1), "inter": inter}


def rw2(w, h, bps, fmt, stream, more=None, split=False, data=None, model="DC-GH6", tags=None, e="<", exif=None):
    """a Panasonic file around the sample data"""
    from lib import tiff
    t = {2: (tiff.SHORT, w), 3: (tiff.SHORT, h), 9: (tiff.SHORT, 1), 10: (tiff.SHORT, bps), 11: (tiff.SHORT, 34316), 0x11: (tiff.SHORT, 512), 0x12: (tiff.SHORT, 384),
         0x2d: (tiff.SHORT, fmt), 271: (tiff.ASCII, "Panasonic"), 272: (tiff.ASCII, model), 0x118 if split else 273: (tiff.LONG, 8192)}
    t.update(more or {})
    t.update(tags or {})
    ifd = tiff.Ifd({k: v for k, v in t.items() if v is not None})
    if exif:
        ifd.subs[34665] = [exif]
    f = tiff.build([ifd], e, 85)
    assert len(f) <= 8192, len(f)
    return f.ljust(8192, b"\0") + stream


def noise(r, n):
    """n bytes: random, with runs of zeros and ones"""
    return b"".join(bytes([r.choice([0, 0, 255, r.randrange(256)])] * 16) if r.random() < .25 else r.randbytes(16) for _ in range((n + 15) // 16))[:n]


def pana5(r, w, h):
    bps = r.choice([12, 14])
    per = 10 if bps == 12 else 9
    n = (w * h + per * 1024 - 1) // (per * 1024)
    need = (w * h + per - 1) // per * 16
    b = noise(r, need)
    data = bytearray(n * 0x4000)
    for i in range(need):
        data[i // 0x4000 * 0x4000 + (i + 0x1ff8) % 0x4000] = b[i]
    # what the packets of this image do not use stays zero and is not recorded
    return None, rw2(w, h, bps, 5, bytes(data), split=True), {"codec": "pana5", "data": list(data[:16384]) if need < 0x2000 else list(data), "bps": bps}


def pana6(r, w, h):
    bps = 12 if w % 14 == 0 else 14
    n = w // (14 if bps == 12 else 11) * h * 16
    if r.random() < .4:
        b = noise(r, n)
    else:    # plausible samples: large first values, all the scales
        widths = [12, 12] + [2, 8, 8, 8] * 4 if bps == 12 else [14, 14] + [2, 10, 10, 10] * 3
        b = b""
        for _ in range(n // 16):
            bw = Bits()
            top = r.choice([16, 40, 300, 1000])
            for k in widths:
                bw.put(r.randrange(4) if k == 2 else r.choice([0, 1, 14, 15, 16, (1 << k) - 1]) if r.random() < .1 else r.randrange(min(top, 1 << k)), k)
            if bps == 14:
                bw.put(0, 4)
            b += bw.msb()[::-1]
    return None, rw2(w, h, bps, 6, b, split=True), {"codec": "pana6", "data": list(b), "bps": bps}


def pana7(r, w, h):
    bps = 12 if w % 10 == 0 else 14
    b = noise(r, w // (10 if bps == 12 else 9) * h * 16)
    return None, rw2(w, h, bps, 7, b, split=True), {"codec": "pana7", "data": list(b), "bps": bps}


def parts(r, n, k):
    """n as a sum of k even numbers"""
    c = sorted(r.sample(range(1, n // 2), k - 1))
    return [2 * (b - a) for a, b in zip([0] + c, c + [n // 2])]


def pana8_file(r, w, h, nh, nv, tab, gp, gs, clip, init, strips, lines, widths, heights):
    from lib import tiff
    stream, offs = bytearray(), []
    for n, b in strips:
        offs.append(8192 + len(stream))
        stream += b + (r.randbytes(r.choice([0, 0, 3, 16])) if r else b"")

    def arr(f, v):
        return (tiff.UNDEF, struct.pack("<H%d%s" % (len(v), f), len(v), *v))
    more = {0x37: (4, h), 0x39: arr("I", gp), 0x3a: arr("I", gs), 0x3b: (3, clip), 0x3c: (3, init[0]), 0x3d: (3, init[1]), 0x3e: (3, init[2]), 0x3f: (3, init[3]),
            0x40: (7, struct.pack("<H34H", 17, *[x for t in tab for x in t])), 0x41: arr("H", [0] * 17), 0x42: (3, nh), 0x43: (3, nv), 0x44: arr("I", offs),
            0x45: (7, struct.pack("<H%dH" % (2 * len(lines)), len(lines), *[x for t in lines for x in t])), 0x46: arr("I", [n for n, _ in strips]), 0x47: arr("H", widths), 0x48: arr("H", heights), 0x64: (4, w)}
    return rw2(w, h, 14, 8, bytes(stream), more, split=True)


def pana8(r, w, h):
    nh, nv = r.randrange(1, min(3, w // 2) + 1), r.randrange(1, min(2, h // 2) + 1)
    ln = lengths(r, 17, r.choice([6, 10, 16]))
    order = list(range(17))
    r.shuffle(order) if r.random() < .5 else None
    tab, c, last = [None] * 17, 0, 0
    for sym, l in zip(order, ln):
        c <<= l - last
        last = l
        tab[sym] = (l, c)
        c += 1
    clip = r.choice([65535, 16383, 4095, 1000])
    init = [r.randrange(clip + 1) for _ in range(4)]
    gp, gs, gamma = [65536] * 6, [0] * 6, []
    if r.random() < .5:      # segments from gs low to the next, shifted by gp, above gs high
        st = [0] + sorted(r.sample(range(1, clip + 1), 5))
        base, acc = [], r.randrange(0, 20)
        for i in range(6):
            k = r.choice([0, 0, 1, 2, 14, 15, 31]) if i else 0
            end = st[i + 1] if i < 5 else clip
            if r.random() < .2 and acc + ((end - st[i]) << 2) < 65535:
                k = 16 + r.randrange(3)
            gp[i] = k | r.choice([0, 65536])
            base.append(acc)
            gs[i] = acc << 16 | st[i]
            acc = min(65535 if i == 5 else 60000 - clip // 2, acc + r.randrange(0, 200)) if k in (15, 31, 14) else acc
            acc = min(acc + (end - st[i] if k < 14 else 0), 60000 - clip // 2 if clip < 65535 else 30000)
        gamma = [[gp[i] & 31, gs[i] & 65535, gs[i] >> 16] for i in range(6)]
        for i in range(6):   # within 16 bits
            end = gamma[i + 1][1] if i < 5 else clip + 1
            d, k = end - 1 - gamma[i][1], gamma[i][0]
            top = d << (k & 15) if k >= 16 and k != 31 else d
            if top + gamma[i][2] > 65535:
                gamma[i][0] = 15
                gp[i] = 15
    ws, hs = parts(r, w, nh), parts(r, h, nv)
    strips, offs, widths, heights, lines = [], [], [], [], []
    y = 0
    for hh in hs:
        x = 0
        for ww in ws:
            bw = Bits()
            first = list(init)
            for row in range(hh // 2):
                cur = list(first)
                v = [walk(r, ww // 2, clip) for _ in range(4)]
                for g in range(ww // 2):
                    for k in (0, 2, 1, 3):
                        d = v[k][g] - cur[k]
                        if r.random() < .03:      # beyond the range: stands for its end
                            d = r.choice([-cur[k] - r.randrange(50), clip - cur[k] + r.randrange(50)])
                            d = max(-65535, min(65535, d))
                        if cat(d) > 16:
                            d = 0
                        bw.put(tab[cat(d)][1], tab[cat(d)][0])
                        put_diff(bw, d, cat(d))
                        cur[k] = max(0, min(clip, cur[k] + d))
                    if g == 0:
                        first = list(cur)
            n = len(bw)
            b = bytes(int(format(z, "08b")[::-1], 2) for z in bw.msb())
            strips.append((n, b))
            widths.append(ww), heights.append(hh), lines.append((x, y))
            x += ww
        y += hh
    return None, pana8_file(r, w, h, nh, nv, tab, gp, gs, clip, init, strips, lines, widths, heights), {
        "codec": "pana8", "data": [], "strips": [list(b) for _, b in strips], "at": [list(x) for x in lines], "ws": widths, "hs": heights, "tab": [list(t) for t in tab], "init": init, "clip": clip, "gamma": gamma}


ALL = {"arw1": (arw1, 1, 2), "arw2": (arw2, 32, 1), "srf": (srf, 2, 1), "orf": (orf, 2, 1), "srw1": (srw1, 16, 2), "srw2": (srw2, 2, 1), "srw3": (srw3, 16, 1), "pana4": (pana4, 14, 1),
       "kodak": (kodak, 4, 1), "pef": (pef, 2, 1), "pefwith": (pefwith, 2, 1), "nef": (nef, 2, 1), "crw": (crw, 8, 8), "leaf": (leaf, 2, 1),
       "pana5": (pana5, 1, 1), "pana6": (pana6, 14, 1), "pana6b": (pana6, 11, 1), "pana7": (pana7, 10, 1), "pana7b": (pana7, 9, 1), "pana8": (pana8, 2, 2)}


def emitted(x):
    """the file for a stream which the model of the encoders produced"""
    w, h, b = x["w"], x["h"], bytes(x["b"])
    if x["codec"] == "pana8":
        tab = [(i + 1, (1 << (i + 1)) - 2) for i in range(16)] + [(16, 65535)]
        return "decode", pana8_file(None, w, h, 1, 1, tab, [65536] * 6, [0] * 6, 4095, [1000] * 4, [(8 * len(b), b)], [(0, 0)], [w], [h])
    k = {"arw1": 21, "orf": 24, "pef": 36, "srw2": 26}[x["codec"]]
    return "unwrapped", head(k, w, h) + (b"\0" if k == 24 else b"") + b + TAIL
