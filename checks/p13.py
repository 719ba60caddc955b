"""P13: an embedded original comes back byte for byte, and damage is never silently extracted (spec/Original.tla)."""
import hashlib, os, shutil, struct, subprocess, zlib
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from lib import common, dng, rawhost, tiff

BLK = 65536
UNIT = [1, 65534, 1]   # the units of a block: the first byte, the middle, the last byte


def size_of(units):
    return sum(UNIT[i % 3] for i in range(units))


def span(u):
    k, r = divmod(u, 3)
    a = k * BLK + sum(UNIT[:r])
    return a, a + UNIT[r]


def parse(c):
    """Strict reading of OriginalRawFileData after the DNG specification: (size, blocks, rest)."""
    size, = struct.unpack_from(">I", c, 0)
    n = -(-size // BLK)
    idx = struct.unpack_from(">%dI" % (n + 1), c, 4)
    if idx[0] != 4 + 4 * (n + 1):
        raise tiff.Bad("first block at %d" % idx[0])
    bl = []
    for a, b in zip(idx, idx[1:]):
        if not a < b <= len(c):
            raise tiff.Bad("block %d..%d of %d" % (a, b, len(c)))
        bl.append(c[a:b])
    return size, bl, c[idx[-1]:]


def rebuild(size, bl, rest=b"\0" * 28):
    off = 4 + 4 * (len(bl) + 1)
    out = struct.pack(">II", size, off)
    for b in bl:
        off += len(b)
        out += struct.pack(">I", off)
    return out + b"".join(bl) + rest


def check_container(ctx, key, case, c, data, digest, rest28=True):
    try:
        size, bl, rest = parse(c)
        parts = [zlib.decompress(b) for b in bl]
    except (tiff.Bad, struct.error, zlib.error) as e:
        ctx.violation(key + ":malformed", case, "embedded data cannot be read independently: %s" % e)
        return None
    if size != len(data) or b"".join(parts) != data:
        ctx.violation(key + ":content", case, "embedded data (%d bytes) differs from the original (%d bytes)" % (sum(map(len, parts)), len(data)))
        return None
    if any(len(p) != BLK for p in parts[:-1]) or any(not p for p in parts):
        ctx.violation(key + ":blocks", case, "blocks of %r bytes" % [len(p) for p in parts])
        return None
    if rest28 and rest != b"\0" * 28:
        ctx.violation(key + ":forks", case, "the seven other forks must be empty: %r" % rest[:40])
        return None
    if bytes(digest or b"") != hashlib.md5(data).digest():
        ctx.violation(key + ":digest", case, "digest is not that of the original")
        return None
    return size, bl


def content(rng, n, kind):
    r = np.random.default_rng(rng.randrange(1 << 30))
    if kind == "zero":
        return bytes(n)
    if kind == "text":
        return (b"the quick brown fox %d " * (n // 10 + 1) % tuple(range(n // 10 + 1)) if n < 2000 else (b"abcdefghij" * (n // 10 + 1)))[:n]
    return r.integers(0, 256, n).astype(np.uint8).tobytes()


def raw_file(rng, n, kind):
    base = dng.make(r16(rng))
    if n < len(base):
        return None
    return base + content(rng, n - len(base), kind)


def r16(rng):
    return np.random.default_rng(rng.randrange(1 << 30)).integers(0, 65536, (8, 8))


def damage(rng, c, digest, f):
    """Apply a fault of the specification to a concrete container."""
    size, bl, rest = parse(c)
    k, b = f["k"], f["at"] - 1
    inf = lambda i: zlib.decompress(bl[i])
    if k == "none":
        return c, digest
    if k == "digestflip":
        d = bytearray(digest)
        d[rng.randrange(16)] ^= 1 << rng.randrange(8)
        return c, bytes(d)
    if k == "digestgone":
        return c, None
    if k == "datagone":
        return None, digest
    if k == "truncate":
        return c[:rng.randrange(len(c) - len(rest)) if bl else rng.randrange(8)], digest
    if k == "flip":
        x = bytearray(bl[b])
        x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
        return rebuild(size, bl[:b] + [bytes(x)] + bl[b + 1:]), digest
    if k == "index":
        o = 4 + 4 * (b + 1)
        x = bytearray(c)
        v = struct.unpack_from(">I", x, o)[0]
        struct.pack_into(">I", x, o, max(0, v + rng.choice([-7, -1, -16, -v, 60000, 1 << 20])))
        return bytes(x), digest
    if k == "sizeblocks":
        x = bytearray(c)
        struct.pack_into(">I", x, 0, 1)
        return bytes(x), digest
    if k == "drop":
        n = bl[:b] + bl[b + 1:]
    elif k == "dup":
        n = bl[:b + 1] + bl[b:]
    elif k == "swap":
        n = [bl[1], bl[0]] + bl[2:]
    else:
        d = bytearray(inf(b))
        d[rng.randrange(len(d))] ^= 0xff
        n = bl[:b] + [zlib.compress(bytes(d))] + bl[b + 1:]
        return rebuild(size, n), digest
    return rebuild(sum(len(zlib.decompress(x)) for x in n), n), digest


def expect_bytes(out, data):
    if all(u < 1000 for u in out["u"]):
        return b"".join(data[slice(*span(u))] for u in out["u"])
    return None   # altered content: anything but the original


def extract(exe, wrapped, skip, mode):
    d = common.scratch("x13", common.NOBODY)
    open(d + "/i.dng", "wb").write(wrapped)
    os.makedirs(d + "/o")
    os.chown(d + "/o", common.NOBODY, common.NOBODY)
    target = "o" if mode == "dir" else "o/out.bin"
    name = "orig.nef" if mode == "dir" else "out.bin"
    r = subprocess.run([exe, "extract"] + (["--skipchecks"] if skip else []) + ["i.dng", target], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       preexec_fn=common.demote, timeout=60)
    files = os.listdir(d + "/o")
    got = open(d + "/o/" + name, "rb").read() if name in files else None
    shutil.rmtree(d)
    return r.returncode, files, got, r.stdout.decode(errors="replace")[-300:]


def run(ctx):
    exe = common.build_cli()
    res = common.run_tlc("Original", """SPECIFICATION Spec
CONSTANTS B = 3 MaxLen = %d
INVARIANTS NeverWrong RoundTrip Blocks
CONSTRAINT Emit
""" % ctx.pick(8, 13), ctx=ctx)
    scen = {}
    for e in res.emitted:
        scen.setdefault((e["len"], e["fault"]["k"], e["fault"]["at"], e["skip"]), []).append(e["out"])
    ctx.need(len(scen) > 150 and {k[1] for k in scen} >= {"flip", "swap", "dup", "drop", "othercontent", "index", "truncate", "none"}, "fault kinds")
    kinds = ["random", "zero", "text"]
    with rawhost.Pool(8) as P:
        # 1. the writer: containers of all interesting sizes, read independently, from the stream and through a conversion
        sizes = sorted({size_of(u) + d for u in range(ctx.pick(9, 14)) for d in (-2, -1, 0, 1, 2) if size_of(u) + d >= 0} | {ctx.rng.randrange(400000) for _ in range(ctx.pick(20, 200))})
        items = [(n, k, "stream") for n in sizes for k in (kinds if not ctx.quick or n < 200 else [ctx.rng.choice(kinds)])]
        items += [(n, ctx.rng.choice(kinds), "convert") for n in sizes if n >= 900]
        seeds = [ctx.rng.randrange(1 << 30) for _ in items]

        def one(it, call):
            (n, k, how), s = it
            import random
            rng = random.Random(s)
            if how == "stream":
                pre = rng.choice([0, 0, 3])
                data = content(rng, n, k)
                j, c = call({"op": "origcompress", "start": pre}, bytes(pre) + data)
                return data, j, c, j.get("digest"), None
            data = raw_file(rng, n, k)
            if data is None:
                return None
            name = rng.choice(["DSC_0001.NEF", "ünï cödé.cr2", "a b.c.d", "x" * 200 + ".arw"])
            j, c = call({"op": "convert", "embedded": True, "name": name, "thumbnail": rng.random() < .5}, data)
            return data, j, c, None, name
        made = P.map(one, list(zip(items, seeds)))
        back = []
        for (n, k, how), r in zip(items, made):
            if r is None:
                continue
            data, j, c, dig, name = r
            case = {"size": n, "kind": k, "how": how}
            if rawhost.failed(j):
                ctx.violation("embed:failed", case, "embedding %d bytes failed: %r" % (n, j))
                continue
            if how == "convert":
                try:
                    root = tiff.File(c).roots[0]
                    blob, dig, nm = root.ent[50828].raw, root.ent[50973].raw, root.ent[50827].s
                except (tiff.Bad, KeyError) as e:
                    ctx.violation("embed:tags", case, "embedding tags missing: %r" % e)
                    continue
                if nm != name:
                    ctx.violation("embed:name", case, "original name %r stored as %r" % (name, nm))
            else:
                blob = c
            ctx.traces += 1
            if check_container(ctx, "embed", case, bytes(blob), data, dig):
                back.append((bytes(blob), bytes(dig), data, case))
            if ctx.too_many():
                return
        ctx.need(any(c["how"] == "convert" for *_, c in back), "conversions with embedded originals")

        # 2. the reader on sound containers: its own, and foreign ones with other zlib encoders
        def again(it, call):
            blob, dig, data, case = it
            level = (len(data) * 7) % 10
            mine = rebuild(len(data), [zlib.compress(data[i:i + BLK], level) for i in range(0, len(data), BLK)], b"\0" * 28 if len(data) % 2 else b"")
            o = []
            for b in (blob, mine):
                j, got = call({"op": "origdecompress", "digest": list(dig), "verify": True}, b)
                o.append((j, got == data))
            return o
        for it, o in zip(back, P.map(again, back)):
            for who, (j, same) in zip(("own", "foreign"), o):
                ctx.traces += 1
                if rawhost.failed(j) or "fail" in j or not same:
                    ctx.violation("restore:" + who, it[3], "a sound container is not restored: %r same=%r" % (j, same))
        # 3. every fault scenario of the specification through the command line tool
        srcs = {}
        for L in sorted({k[0] for k in scen}):
            data = content(ctx.rng, size_of(L), "random" if L % 2 else "text")
            if L > 2 and L % 3 != 0:
                data = raw_file(ctx.rng, size_of(L), "random") or data
            j, c = P.call({"op": "origcompress"}, data)
            srcs[L] = (data, c, bytes(j.get("digest") or b"\0" * 16))
    jobs = []
    for key in sorted(scen):
        L, k, at, skip = key
        if L == 0 and k in ("flip", "index"):
            continue
        for rep in range(ctx.pick(1, 4) if k not in ("flip", "index", "truncate") else ctx.pick(2, 20)):
            data, c, dig = srcs[L]
            c2, dig2 = damage(ctx.rng, c, dig, {"k": k, "at": at})
            x = {50827: (tiff.ASCII, "orig.nef")}
            if c2 is not None:
                x[50828] = (tiff.UNDEF, c2 if c2 else b"\0")
            if dig2 is not None:
                x[50973] = (tiff.BYTE, dig2)
            jobs.append((key, data, dng.make(r16(ctx.rng), rootextra=x), ctx.rng.choice(["dir", "file"])))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: extract(exe, j[2], j[0][3], j[3]), jobs))
    for (key, data, wrapped, mode), (rc, files, got, log) in zip(jobs, res):
        L, k, at, skip = key
        ctx.traces += 1
        case = {"len": size_of(L), "fault": k, "at": at, "skipchecks": skip, "mode": mode, "dng_hex": wrapped.hex() if len(wrapped) < 3000 else None, "log": log, "exit": rc, "files": files}
        if rc not in range(0, 64) or rc < 0:
            ctx.violation("extract:crash:%s" % k, case, "extract died with %d" % rc)
            continue
        if (rc == 0) != (got is not None) or len(files) != (rc == 0):
            ctx.violation("extract:leftover:%s" % k, case, "exit %d but files %r" % (rc, files))
            continue
        outs = scen[key]
        ok = False
        for o in outs:
            if o["k"] == "fail":
                ok |= rc != 0
            elif o["k"] == "anything":
                ok = True
            else:
                exp = expect_bytes(o, data)
                ok |= rc == 0 and (got == exp if exp is not None else got != data and len(got) == len(data))
        if not ok and k in ("flip", "index") and got == data:
            ok = True   # the damage did not reach the content
        if not ok:
            ctx.violation("extract:%s:%s" % (k, "skip" if skip else "check"), case, "extract with %s damage: exit %d, %s; allowed %r" % (
                k, rc, "no file" if got is None else "file of %d bytes (%s the original)" % (len(got), "is" if got == data else "is not"), [o["k"] for o in outs]))
        if ctx.too_many():
            return
    # 4. the whole way through the command line: convert, then extract
    d = common.scratch("cli13", common.NOBODY)
    os.makedirs(d + "/in"), os.makedirs(d + "/mid"), os.makedirs(d + "/out")
    originals = {}
    for i, n in enumerate([1000, BLK - 1, BLK, BLK + 1, 2 * BLK, 2 * BLK + 1, 3 * BLK - 1, 300000 + ctx.rng.randrange(100000)]):
        name = ["a.nef", "Ä ö.CR2", "c.d.arw", "d.ORF", "e.raf", "f.pef", "g.srw", "h.rw2"][i]
        originals[name] = raw_file(ctx.rng, n, kinds[i % 3])
        open(d + "/in/" + name, "wb").write(originals[name])
    for x in ("in", "mid", "out"):
        os.chown(d + "/" + x, common.NOBODY, common.NOBODY)
    for cmd in (["convert", "--embed-raw", "true", "in", "mid"], ["extract", "mid", "out"]):
        r = subprocess.run([exe] + cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=common.demote, timeout=120)
        if r.returncode:
            ctx.violation("roundtrip:exit", {"cmd": cmd, "log": r.stdout.decode(errors="replace")[-800:]}, "%s exits %d" % (cmd[0], r.returncode))
    for name, data in originals.items():
        ctx.traces += 1
        p = d + "/out/" + name
        if not os.path.exists(p) or open(p, "rb").read() != data:
            ctx.violation("roundtrip:content", {"name": name, "size": len(data), "there": os.listdir(d + "/out")}, "convert + extract does not restore %s (%d bytes)" % (name, len(data)))
    ctx.sample({"scenario": list(map(str, list(scen)[0])), "sizes": sizes[:12]})
    ctx.count("containers", len(back))
    ctx.count("fault_replays", len(jobs))
    ctx.assumptions.append("MD5 collisions are not considered; flips of a compressed block that do not change its content may pass")
