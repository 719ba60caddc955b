"""Independent lossless JPEG (ITU-T T.81 process 14) decoder and encoder."""
import struct


class Bad(Exception):
    pass


def decode(data, twos16=True):
    """Returns (width, height, ncomp, precision, predictor, list of rows; row = flat list interleaved by component)."""
    pos = 0

    def u16(p):
        return data[p] << 8 | data[p + 1]
    if u16(0) != 0xFFD8:
        raise Bad("no SOI")
    pos = 2
    tables, frame, pt = {}, None, 0
    restart = 0
    while True:
        if pos + 4 > len(data):
            raise Bad("truncated headers")
        if data[pos] != 0xFF:
            raise Bad("marker expected")
        m = data[pos + 1]
        L = u16(pos + 2)
        seg = data[pos + 4:pos + 2 + L]
        pos += 2 + L
        if m == 0xC3:
            prec, h, w, n = seg[0], seg[1] << 8 | seg[2], seg[3] << 8 | seg[4], seg[5]
            comps = [(seg[6 + 3 * i], seg[7 + 3 * i], seg[8 + 3 * i]) for i in range(n)]
            if any(c[1] != 0x11 for c in comps):
                raise Bad("subsampling")
            if len(seg) != 6 + 3 * n:
                raise Bad("SOF3 length")
            frame = (prec, h, w, n, comps)
        elif m == 0xC4:
            p = 0
            while p < len(seg):
                tc = seg[p]
                if tc >> 4:
                    raise Bad("AC table")
                bits = seg[p + 1:p + 17]
                k = sum(bits)
                vals = seg[p + 17:p + 17 + k]
                if len(vals) != k:
                    raise Bad("DHT length")
                code, i, t = 0, 0, {}
                for l in range(1, 17):
                    for _ in range(bits[l - 1]):
                        if code >= (1 << l):
                            raise Bad("over-subscribed Huffman table")
                        t[(l, code)] = vals[i]
                        i += 1
                        code += 1
                    code <<= 1
                tables[tc & 15] = t
                p += 17 + k
        elif m == 0xDD:
            restart = seg[0] << 8 | seg[1]
        elif m == 0xDA:
            n = seg[0]
            sel = {seg[1 + 2 * i]: seg[2 + 2 * i] >> 4 for i in range(n)}
            pred = seg[1 + 2 * n]
            pt = seg[3 + 2 * n] & 15
            break
        elif m in (0xD8, 0xD9):
            raise Bad("unexpected marker")
    if frame is None:
        raise Bad("no SOF3")
    prec, h, w, n, comps = frame
    # bit reader
    bits = bytearray()
    i = pos
    end = None
    while i < len(data):
        b = data[i]
        if b == 0xFF:
            if i + 1 >= len(data):
                raise Bad("stray FF at end")
            if data[i + 1] == 0:
                bits.append(0xFF)
                i += 2
                continue
            end = data[i + 1]
            break
        bits.append(b)
        i += 1
    if end != 0xD9:
        raise Bad("no EOI")
    total = len(bits) * 8
    bits += bytes(8)
    luts = {}
    for tc, t in tables.items():
        lut = [0] * 65536
        for (l, code), v in t.items():
            lut[code << (16 - l):(code + 1) << (16 - l)] = [l << 8 | v] * (1 << (16 - l))
        luts[tc] = lut
    tabs = [luts[sel[c[0]]] for c in comps]
    bp = 0
    wn = w * n
    rows = []
    up = None
    frm = int.from_bytes
    for y in range(h):
        row = []
        for x in range(wn):
            s = bp >> 3
            win = frm(bits[s:s + 5], "big") << (bp & 7)
            e = tabs[x % n][(win >> 24) & 0xFFFF]
            if not e:
                raise Bad("no Huffman code matches")
            ssss = e & 255
            bp += e >> 8
            if ssss == 0:
                diff = 0
            elif ssss == 16:
                diff = 32768
            elif ssss > 16:
                raise Bad("bad category")
            else:
                s = bp >> 3
                win = frm(bits[s:s + 4], "big") << (bp & 7)
                v = (win >> (32 - ssss)) & ((1 << ssss) - 1)
                bp += ssss
                diff = v if v >> (ssss - 1) else v - (1 << ssss) + 1
            if bp > total:
                raise Bad("entropy coded data exhausted")
            if x < n:
                p = up[x] if up else 1 << (prec - pt - 1)
            elif not up:
                p = row[x - n]
            elif pred == 1:
                p = row[x - n]
            else:
                a, b, d = row[x - n], up[x], up[x - n]
                if pred == 2:
                    p = b
                elif pred == 3:
                    p = d
                elif pred == 4:
                    p = a + b - d
                elif pred == 5:
                    p = a + ((b - d) >> 1)
                elif pred == 6:
                    p = b + ((a - d) >> 1)
                elif pred == 7:
                    p = (a + b) >> 1
                else:
                    raise Bad("predictor %d" % pred)
            row.append((p + diff) & 0xFFFF)
        rows.append(row)
        up = row
    left = total - bp
    if left >= 8:
        raise Bad("%d unused bits behind the last sample" % left)
    return w, h, n, prec, pred, rows


def canonical(cnt, vals):
    """Codes of a canonical table: value -> bit string."""
    code, i, o = 0, 0, {}
    for l in range(1, 17):
        for _ in range(cnt[l - 1]):
            o[vals[i]] = format(code, "0%db" % l)
            code += 1
            i += 1
        code <<= 1
    return o


def random_table(rng):
    """A random complete-enough canonical code for the categories 0..16 with the all-ones code unused."""
    lens = [1, 1]   # split random leaves until there are 18 codes; the last one of the greatest length is reserved
    while len(lens) < 18:
        i = rng.choice([i for i, l in enumerate(lens) if l < 16])
        l = lens.pop(i) + 1
        lens += [l, l]
    lens.sort()
    lens.pop()
    cnt = [lens.count(l) for l in range(1, 17)]
    vals = list(range(17))
    rng.shuffle(vals)
    return cnt, vals


FIXED = ([0, 0, 0, 0, 17] + [0] * 11, list(range(17)))


def differences(rows, w, h, n, prec, pred):
    for y in range(h):
        for x in range(w):
            for c in range(n):
                if y == 0 and x == 0:
                    p = 1 << (prec - 1)
                elif y == 0:
                    p = rows[0][(x - 1) * n + c]
                elif x == 0:
                    p = rows[y - 1][c]
                else:
                    a = rows[y][(x - 1) * n + c]
                    b = rows[y - 1][x * n + c]
                    d = rows[y - 1][(x - 1) * n + c]
                    p = (None, a, b, d, a + b - d, a + ((b - d) >> 1), b + ((a - d) >> 1), (a + b) >> 1)[pred]
                diff = (rows[y][x * n + c] - p) & 0xFFFF
                yield c, (diff - 65536 if diff > 32768 else diff)


def encode(rows, w, h, n, prec, pred, tables=None, ids=None, extra=b"", sel=None):
    """Reference encoder. tables: list of (counts, values); sel: table of each component; extra: marker segments before the frame."""
    tables = tables or [FIXED]
    sel = sel or [min(c, len(tables) - 1) for c in range(n)]
    ids = ids or [c + 1 for c in range(n)]
    out = bytearray(b"\xff\xd8") + extra
    out += b"\xff\xc3" + struct.pack(">HBHHB", 8 + 3 * n, prec, h, w, n) + b"".join(bytes([i, 0x11, 0]) for i in ids)
    for k, (cnt, vals) in enumerate(tables):
        out += b"\xff\xc4" + struct.pack(">H", 2 + 17 + len(vals)) + bytes([k]) + bytes(cnt) + bytes(vals)
    out += b"\xff\xda" + struct.pack(">HB", 6 + 2 * n, n) + b"".join(bytes([i, s << 4]) for i, s in zip(ids, sel)) + bytes([pred, 0, 0])
    codes = [canonical(*t) for t in tables]
    bits = []
    for c, diff in differences(rows, w, h, n, prec, pred):
        t = codes[sel[c]]
        if diff == 32768:
            bits.append(t[16])
            continue
        s = abs(diff).bit_length()
        bits.append(t[s])
        if s:
            bits.append(format(diff if diff > 0 else diff + (1 << s) - 1, "0%db" % s))
    b = "".join(bits)
    b += "1" * (-len(b) % 8)
    body = int(b, 2).to_bytes(len(b) // 8, "big") if b else b""
    out += body.replace(b"\xff", b"\xff\0") + b"\xff\xd9"
    return bytes(out)
