"""P28: every storage layout a DNG may use is read as exactly the samples stored (spec/Storage.tla, MCStorage.tla, MCFloats.tla, MCInterleave.tla, LinearTrace.tla)."""
import json, random
import numpy as np
from lib import common, dng, ljpeg, rawhost, tiff
from lib.tiff import Ifd, SHORT, LONG, BYTE

PH = {"cfa": 32803, "linear": 34892, "mono": 1}


def container(rng, g, bps, e, blocks, comp=1, fmt=1, pred=1, photometric=None, extra=None):
    """A DNG with given data blocks; placement, types and order vary."""
    w, h, cpp = g["w"], g["h"], g["cpp"]
    ph = photometric or ("cfa" if cpp == 1 and rng.random() < .6 else "linear" if cpp > 1 or rng.random() < .5 else "mono")
    n = rng.choice([SHORT, LONG])
    i = Ifd({254: (LONG, 0), 256: (n, w), 257: (n, h), 258: (SHORT, [bps] * cpp), 259: (SHORT, comp), 262: (SHORT, PH[ph]), 277: (SHORT, cpp), 284: (SHORT, 1)})
    if fmt != 1 or rng.random() < .3:
        i.e[339] = (SHORT, [fmt] * cpp)
    if comp == 8:
        i.e[317] = (SHORT, pred)
    if g["strips"]:
        i.strips = blocks
        if len(blocks) > 1:
            i.e[278] = (n, g["th"])
        else:
            k = rng.randrange(4)
            if k:
                i.e[278] = (LONG, [0, h, h + rng.randrange(1, 999), 0xffffffff][k])
    else:
        i.tiles = blocks
        i.e[322], i.e[323] = (n, g["tw"]), (n, g["th"])
    k = list(range(len(blocks)))
    how = rng.randrange(4)
    if how == 1:
        rng.shuffle(k)
        i.order = k
    elif how == 2:
        i.blockgap = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 7])))
    elif how == 3:
        i.pack = True
    if sum(map(len, blocks)) < 30000 and rng.random() < .4:
        i.otype = SHORT
    if ph == "cfa":
        i.e.update({33421: (SHORT, [2, 2]), 33422: (BYTE, bytes([0, 1, 1, 2])), 50710: (BYTE, bytes([0, 1, 2])), 50711: (SHORT, 1)})
    i.e.update(extra or {})
    root = {271: (tiff.ASCII, "Acme"), 272: (tiff.ASCII, "Model T"), 274: (SHORT, 1), 50706: (BYTE, bytes([1, 4, 0, 0])), 50707: (BYTE, bytes([1, 1, 0, 0])), 50708: (tiff.ASCII, "Acme Model T"),
            50721: (tiff.SRATIONAL, dng.MATRIX), 50778: (SHORT, 21), 50728: (tiff.RATIONAL, [(1, 2), (1, 1), (2, 3)])}
    if rng.random() < .5:
        ri = Ifd(root)
        ri.e.update({254: (LONG, 1), 256: (LONG, 2), 257: (LONG, 2), 258: (SHORT, [8, 8, 8]), 259: (SHORT, 1), 262: (SHORT, 2), 277: (SHORT, 3), 278: (SHORT, 2), 284: (SHORT, 1)})
        ri.strips = [bytes(range(12))]
        ri.subs[330] = [i]
    else:
        i.e.update(root)
        ri = i
    return tiff.build([ri], ">" if e == "big" else "<")


def samples(j, px):
    return np.frombuffer(px, "<f4" if j["data"] == "f32" else "<u2")


def cut(a, g, fill):
    """Blocks (arrays of rows) of an image (h, w*cpp)."""
    h, w, cpp, tw, th = g["h"], g["w"], g["cpp"], g["tw"], g["th"]
    out = []
    if g["strips"]:
        return [a[y:y + th] for y in range(0, h, th)]
    for y in range(0, h, th):
        for x in range(0, w, tw):
            t = np.full((th, tw * cpp), fill, a.dtype)
            p = a[y:y + th, x * cpp:(x + tw) * cpp]
            t[:p.shape[0], :p.shape[1]] = p
            out.append(t)
    return out


def lj_block(rng, rows, cpp, bps):
    """Lossless JPEG of one block, in any arrangement of the same sample order."""
    h, n = rows.shape
    shapes = [(n // cpp, h, cpp)]
    for c in (1, 2, 4):
        if n % c == 0:
            shapes.append((n // c, h, c))
        if h % 2 == 0 and (2 * n) % c == 0 and rng.random() < .5:
            shapes.append((2 * n // c, h // 2, c))
    w, hh, c = rng.choice(shapes)
    if c > 4 or w < 1:
        w, hh, c = n // cpp, h, cpp
    flat = rows.reshape(hh, w * c)
    return ljpeg.encode(flat.tolist(), w, hh, c, bps, rng.randint(1, 7))


def build_one(spec):
    """(file, expected) of a generated image; runs in worker processes."""
    kind, seed = spec
    rng = random.Random(seed)
    nr = np.random.default_rng(seed)
    e = rng.choice(["big", "little"])
    cpp = rng.choice([1, 1, 3])
    lim = 40 if kind == "lj" else 90
    w, h = rng.randrange(1, lim), rng.randrange(1, lim)
    strips = rng.random() < .5 and kind != "deflate"
    if strips:
        g = dict(w=w, h=h, tw=w, th=rng.choice([1, 2, 3, 7, 16, h, max(1, h - 1)]), cpp=cpp, strips=True)
        g["th"] = min(g["th"], h)
    else:
        g = dict(w=w, h=h, tw=rng.choice([1, 2, 5, 16, 32, 48]), th=rng.choice([1, 3, 16, 32]), cpp=cpp, strips=False)
    n = w * cpp
    extra, fmt, comp, pred = {}, 1, 1, 1
    ph = None
    if kind in ("float", "deflate"):
        fmt, bps = 3, rng.choice([16, 24, 32])
        a = nr.integers(0, 1 << 32, (h, n), dtype=np.uint32).view(np.float32) if rng.random() < .3 and bps == 32 else (nr.random((h, n)) * 4 - 1).astype(np.float32)
        if bps == 16:
            a = a.astype(np.float16).astype(np.float32)
        elif bps == 24:
            a = dng.f24_of(a)[1]
        a[~np.isfinite(a)] = 0
        fill = np.float32(-7)
        if kind == "deflate":
            comp, pred = 8, rng.choice([3, 34894, 34895])
            blocks = [dng.deflate(b, bps, cpp, pred) for b in cut(a, g, fill)]
        else:
            blocks = [dng.pack(b, bps, ">" if e == "big" else "<", 3) for b in cut(a, g, fill)]
    else:
        bps = rng.choice(range(1, 17)) if kind == "uint" else rng.randint(2, 16)
        if kind == "ilv":
            bps = rng.choice([8, 12, 16])
        m = 1 << bps
        a = nr.integers(0, m, (h, n)) if rng.random() < .5 else nr.integers(0, 2, (h, n)) * (m - 1) if rng.random() < .5 else (np.add.outer(np.arange(h) * 3, np.arange(n)) % m)
        stored = a
        if kind == "ilv":
            rf, cf = rng.choice([(2, 2), (2, 2), (2, 1), (1, 2), (3, 2), (1, 3), (4, 4)])
            extra = {50975: (SHORT, rf), 52547: (SHORT, cf)}
            ro = [i for k in range(rf) for i in range(k, h, rf)]
            co = [i for k in range(cf) for i in range(k, w, cf)]
            stored = a.reshape(h, w, cpp)[ro][:, co].reshape(h, n)
        if kind == "lj" or (kind == "ilv" and w * h < 900):
            comp = 7
            ph = "cfa" if cpp == 1 else "linear"
            blocks = [lj_block(rng, b, cpp, bps) for b in cut(stored, g, m - 1)]
        else:
            blocks = [dng.pack(b, bps, ">" if e == "big" else "<") for b in cut(stored, g, m - 1)]
    data = container(rng, g, bps, e, blocks, comp, fmt, pred, ph, extra)
    return data, a, dict(kind=kind, seed=seed, g=g, bps=bps, e=e, comp=comp, pred=pred, extra={k: v[1] for k, v in extra.items()})


def run(ctx):
    small = []
    seen = set()
    for c in [(4, 3, 3, "{1,3}", "{1,4,7,8,9,10,11,12,13,14,15,16}", '{"bit","byte"}')] if ctx.quick else \
            [(5, 3, 3, "{1,3}", "{1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}", '{"bit","byte","ones","alt","count"}'), (9, 2, 3, "{1,2}", "{8,9,10,12,14,15,16}", '{"count","alt"}')]:
        res = common.run_tlc("MCStorage", "SPECIFICATION Spec\nCONSTANTS W=%d H=%d T=%d Cpps=%s\nBps=%s\nPats=%s\nINVARIANTS Same Bytes\nCONSTRAINT Emit\n" % c, ctx=ctx)
        for x in res.emitted:
            k = json.dumps(x, sort_keys=True)
            if k not in seen:
                seen.add(k)
                small.append(x)
    ctx.need(len(small) >= 4000, "storages")
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8) as EX, rawhost.Pool(12) as P:
        kinds = ["uint", "uint", "lj", "float", "deflate", "ilv"]
        specs = [(k, ctx.rng.randrange(1 << 40)) for k in kinds for _ in range(ctx.pick(150, 2500))]
        built = EX.map(build_one, specs, chunksize=8)
        # every storage of the model
        todo = ctx.rng.sample(small, min(len(small), ctx.pick(4600, 60000)))
        todo = [(x, ctx.rng.randrange(1 << 30)) for x in todo]

        def one(it, call):
            x, seed = it
            data = container(random.Random(seed), x["g"], x["bps"], x["e"], [bytes(b) for b in x["blocks"]])
            j, px = call({"op": "decode"}, data)
            return data, j, px
        for (x, seed), (data, j, px) in zip(todo, P.map(one, todo)):
            ctx.traces += 1
            g = x["g"]
            if rawhost.failed(j):
                err = "not decoded: %r" % j
            elif (j["w"], j["h"], j["cpp"]) != (g["w"], g["h"], g["cpp"]):
                err = "read as %dx%dx%d" % (j["w"], j["h"], j["cpp"])
            else:
                got = samples(j, px).tolist()
                err = None if got == x["img"] else "samples %r instead of %r" % (got[:40], x["img"][:40])
            if err:
                ctx.violation("uint:%d" % x["bps"], dict(case=x, seed=seed, dng=data.hex()), "%r, %d bit, %s endian: %s" % (g, x["bps"], x["e"], err))
                if ctx.too_many():
                    return
        # every narrow float
        for fmt, fracs in ((16, 0), (24, ctx.pick(30, 400)), (32, ctx.pick(5, 60))):
            res = common.run_tlc("MCFloats", "SPECIFICATION Spec\nCONSTANTS Format=%d Fracs=%d\nINVARIANT Exact\nCONSTRAINT Emit\n" % (fmt, fracs), ctx=ctx)
            t = np.array(sorted({tuple(x[:3]) + (["zero", "normal", "subnormal", "inf", "nan"].index(x[3]),) + tuple(x[4:]) for x in res.emitted}), np.int64)
            eb, fb = {16: (5, 10), 24: (7, 16), 32: (8, 23)}[fmt]
            bits = t[:, 0] << (eb + fb) | t[:, 1] << fb | t[:, 2]
            want = (t[:, 0] << 31 | t[:, 4] << 23 | t[:, 5]).astype(np.uint32)
            w = 256
            n = len(bits) // w
            for k in range(2):
                # every value in every column residue: two offsets
                b, wv, cl = np.roll(bits, k)[:n * w].reshape(n, w), np.roll(want, k)[:n * w], np.roll(t[:, 3], k)[:n * w]
                bb = np.stack([(b >> s) & 255 for s in range(fmt - 8, -1, -8)], axis=-1).astype(np.uint8)
                for e in ("big", "little", "deflate"):
                    g = dict(w=w, h=n, tw=w, th=n, cpp=1, strips=False)
                    if e == "deflate":
                        import zlib
                        pl = np.ascontiguousarray(bb.transpose(0, 2, 1)).reshape(n, -1).astype(np.int64)
                        pl[:, 1:] = (pl[:, 1:] - pl[:, :-1]) & 255
                        data = container(random.Random(1), g, fmt, "big", [zlib.compress(pl.astype(np.uint8).tobytes())], 8, 3, 3, "mono")
                    else:
                        data = container(random.Random(1), g, fmt, e, [(bb if e == "big" else bb[:, :, ::-1]).tobytes()], 1, 3, 1, "mono")
                    j, px = P.call({"op": "decode"}, data)
                    ctx.traces += 1
                    if rawhost.failed(j):
                        ctx.violation("float:%d:%s" % (fmt, e), {"format": fmt, "e": e}, "%d bit floats (%s) are not decoded: %r" % (fmt, e, j))
                        continue
                    got = samples(j, px).view(np.uint32)
                    nan = cl == 4
                    bad = np.where(np.where(nan, ~np.isnan(got.view(np.float32)), got != wv))[0] if len(got) == len(wv) else np.array([0])
                    if len(bad):
                        i = int(bad[0])
                        ctx.violation("float:%d:%s" % (fmt, e), {"format": fmt, "bits": int(b.reshape(-1)[i])}, "the %d bit float %#x (%s) reads as %#x instead of %#x; %d values differ" % (fmt, b.reshape(-1)[i], e, got[i] if i < len(got) else 0, wv[i], len(bad)))
            ctx.count("floats%d" % fmt, len(bits))
        # interleaved fields
        res = common.run_tlc("MCInterleave", "SPECIFICATION Spec\nCONSTANTS MaxN=%d MaxF=4\nINVARIANT Inverse\nCONSTRAINT Emit\n" % ctx.pick(9, 13), ctx=ctx)
        dims = {(x["n"], x["f"]): x["stored"] for x in res.emitted}
        pairs = [(a, b) for a in dims for b in dims if a[1] * b[1] > 1]
        if ctx.quick:
            pairs = ctx.rng.sample(pairs, 400)

        def ilv(p, call):
            (h, rf), (w, cf) = p
            cpp = 1 + 2 * ((h + w) % 2)
            a = np.arange(1, h * w * cpp + 1).reshape(h, w, cpp)
            st = a[dims[(h, rf)]][:, dims[(w, cf)]].reshape(h, w * cpp)
            g = dict(w=w, h=h, tw=w, th=h, cpp=cpp, strips=True)
            data = container(random.Random(h * 99 + w), g, 16, "little", [st.astype("<u2").tobytes()], extra={50975: (SHORT, rf), 52547: (SHORT, cf)})
            j, px = call({"op": "decode"}, data)
            if rawhost.failed(j):
                return "not decoded: %r" % j
            got = samples(j, px).tolist()
            return None if got == a.reshape(-1).tolist() else "%r" % got[:40]
        for p, err in zip(pairs, P.map(ilv, pairs)):
            ctx.traces += 1
            if err:
                ctx.violation("interleave", {"rows": p[0], "columns": p[1]}, "%d rows in %d fields, %d columns in %d: %s" % (*p[0], *p[1], err))
            if ctx.too_many():
                return
        # linearization tables
        recs = []

        def lin(seed, call):
            rng = random.Random(seed)
            bps = rng.choice([8, 10, 12, 14, 16])
            n = rng.choice([1, 2, 17, 100, 1 << min(bps, 10), 1 << bps])
            n = min(n, 1 << bps, 4096)
            kind = rng.choice(["identity", "steep", "sqrt", "flat", "random", "falling"])
            t = {"identity": lambda i: i, "steep": lambda i: 0 if i < n // 2 else 65535, "sqrt": lambda i: min(65535, i * i // max(1, n // 4)), "flat": lambda i: (i // 16) * 16 * 3 % 65536,
                 "random": lambda i: rng.randrange(65536), "falling": lambda i: 65535 - i}[kind]
            table = [t(i) for i in range(n)]
            w, h = rng.choice([1, 2, 3, 20]), rng.choice([1, 2, 20])
            a = np.array([[rng.choice([0, n - 1, rng.randrange(n), (1 << bps) - 1, rng.randrange(1 << bps)]) for _ in range(w)] for _ in range(h)])
            g = dict(w=w, h=h, tw=w, th=h, cpp=1, strips=True)
            data = container(rng, g, bps, "little", [dng.pack(a, bps, "<")], extra={50712: (SHORT, table)})
            j, px = call({"op": "decode"}, data)
            if rawhost.failed(j):
                return dict(seed=seed, kind=kind, bps=bps, n=n, w=w, h=h), "not decoded: %r" % j, None
            got = samples(j, px).tolist()
            return None, None, dict(table=table, pairs=sorted(set(map(tuple, zip(a.reshape(-1).tolist(), got)))))
        seeds = [ctx.rng.randrange(1 << 40) for _ in range(ctx.pick(150, 3000))]
        for s, (case, err, rec) in zip(seeds, P.map(lin, seeds)):
            ctx.traces += 1
            if err:
                ctx.violation("linearization", case, "linearization table %r: %s" % (case, err))
            else:
                recs.append(rec)
        for x in common.validate("LinearTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", recs, ctx):
            r = recs[x["reject"] - 1]
            p = r["pairs"][x["at"] - 1]
            ctx.violation("linearization", dict(table=r["table"][:300], pair=p), "the sample %d became %d; table of %d entries, %r" % (p[0], p[1], len(r["table"]), r["table"][max(0, p[0] - 1):p[0] + 2]))
            if ctx.too_many():
                return
        # larger images in every storage
        def big(it, call):
            data, a, info = it
            j, px = call({"op": "decode"}, data, 60)
            return j, px
        built = list(built)
        for (data, a, info), (j, px) in zip(built, P.map(big, built)):
            ctx.traces += 1
            if rawhost.failed(j):
                err = "not decoded: %r" % j
            elif (j["w"], j["h"], j["cpp"]) != (info["g"]["w"], info["g"]["h"], info["g"]["cpp"]):
                err = "read as %dx%dx%d" % (j["w"], j["h"], j["cpp"])
            else:
                got = samples(j, px)
                want = a.reshape(-1)
                if want.dtype == np.float32:
                    ok = got.dtype == np.float32 and np.array_equal(got.view(np.uint32), want.view(np.uint32))
                else:
                    ok = got.dtype != np.float32 and np.array_equal(got.astype(np.int64), want)
                err = None if ok else "samples differ, first at %r" % (np.argwhere(got != want)[:1].tolist(),)
            if err:
                ctx.violation("%s:%d" % (info["kind"], info["comp"]), dict(info, dng=data.hex() if len(data) < 30000 else None), "%r: %s" % ({k: v for k, v in info.items() if k != "seed"}, err))
                if ctx.too_many():
                    return
    ctx.sample(small[len(small) // 2])
    ctx.count("storages", len(todo))
    ctx.count("generated", len(built))
    ctx.count("linearization_tables_validated_by_tlc", len(recs))
