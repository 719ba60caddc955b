"""P24: damaged files: an error or what is intact, never a crash, never invented samples (spec/MCFaults.tla, FaultsTrace.tla)."""
import json, os, random, struct, subprocess
import numpy as np
from lib import common, dng, rawhost, tiff

SZ = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 1, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8, 13: 4}


def base(seed, layout, comp, e):
    nr = np.random.default_rng(seed)
    a = nr.integers(0, 4096, (40, 64))
    exif = {33434: (tiff.RATIONAL, [(1, 100)]), 34855: (tiff.SHORT, 200), 36867: (tiff.ASCII, b"2020:01:01 00:00:00\0"), 37500: (tiff.UNDEF, bytes(range(64))), 42036: (tiff.ASCII, b"Lens\0")}
    gps = {0: (tiff.BYTE, [2, 3, 0, 0]), 1: (tiff.ASCII, b"N\0"), 2: (tiff.RATIONAL, [(1, 1), (2, 1), (3, 1)])}
    b = dng.make(a, e=e, bps=16, layout=layout, comp=comp, active=(2, 4, 38, 60), crop=(2, 2, 50, 30), black=[10, 20, 30, 40], blackrep=(2, 2), white=[4000], exif=exif, gps=gps,
                 rootextra={700: (tiff.BYTE, list(b"<x/>")), 306: (tiff.ASCII, b"2020:01:01 00:00:00\0"), 33432: (tiff.ASCII, b"me and you\0")})
    return b, a


def entries(b, e):
    """{(directory, tag): position of the entry}"""
    out = {}

    def walk(o, name):
        for i in range(struct.unpack_from(e + "H", b, o)[0]):
            p = o + 2 + 12 * i
            t, ty, c, v = struct.unpack_from(e + "HHII", b, p)
            out[name, t] = p
            if t in (330, 34665, 34853):
                walk(v, {330: "raw", 34665: "exif", 34853: "gps"}[t])
    walk(struct.unpack_from(e + "I", b, 4)[0], "root")
    return out


def damage(b, e, p, kind, rng):
    """The file with the entry at p damaged; None if this damage does not exist for the entry."""
    b = bytearray(b)
    t, ty, c = struct.unpack_from(e + "HHI", b, p)
    v = struct.unpack_from(e + "I", b, p + 8)[0]
    n = SZ[ty] * c
    old = bytes(b)
    if kind == "absent":
        t = 65100 + rng.randrange(100)
    elif kind.startswith("type"):
        # the bytes of the value stay; the count becomes what fits into it
        ty = int(kind[4:])
        if rng.random() < .5 and SZ.get(ty, 1) <= n:
            c = n // SZ.get(ty, 1)
    elif kind == "count0":
        c = 0
    elif kind == "count1":
        c = 1
    elif kind == "countmore":
        c += 1
    elif kind == "counthuge":
        c = rng.choice([0x7fffffff, 0x10000000, 0xffffffff])
    elif kind in ("beyond", "atend"):
        if n <= 4:
            return None
        v = len(b) + rng.choice([0, 1, 1000, 0x7fff0000]) if kind == "beyond" else len(b) - 1
    elif n > 4:
        if kind == "flip":
            b[v + rng.randrange(n)] ^= 1 << rng.randrange(8)
        else:
            b[v:v + n] = (b"\0" if kind == "zero" else b"\xff") * n
    elif kind == "flip":
        b[p + 8 + (rng.randrange(n) if n else 0)] ^= 1 << rng.randrange(8)
    else:
        b[p + 8:p + 12] = (b"\0" if kind == "zero" else b"\xff") * 4
    if kind not in ("zero", "ones", "flip"):
        struct.pack_into(e + "HHII", b, p, t, ty, c, v)
    return bytes(b) if bytes(b) != old else None


def outcome(j, out, a):
    """(class, problem)"""
    if "died" in j or "hang" in j:
        return None, "no answer: %r" % j
    if rawhost.failed(j):
        return "error", None
    n = j["w"] * j["h"] * j["cpp"] * (4 if j["data"] == "f32" else 2)
    if n != len(out):
        return None, "an image of %dx%dx%d with %d bytes of samples" % (j["w"], j["h"], j["cpp"], len(out))
    if (j["w"], j["h"], j["cpp"]) == (a.shape[1], a.shape[0], 1) and j["data"] != "f32" and np.array_equal(np.frombuffer(out, "<u2").reshape(a.shape), a):
        return "same", None
    return "image", None


def described(b):
    """What the output says besides the image: {directory: {tag: bytes}}"""
    f = tiff.File(b)
    r = f.roots[0]
    d = {"root": r}
    for k, t in (("exif", 34665), ("gps", 34853)):
        if t in r.ent:
            d[k] = r.sub[t][0]
    keep = {271, 272, 274, 700, 33432, 50707, 50708, 50721, 50728, 50778}
    return {k: {t: (x.ent[t].typ, bytes(x.ent[t].raw)) for t in x.ent if t in keep or k != "root"} for k, x in d.items()}


def image_of(b):
    f = tiff.File(b)
    i = dng.find_raw(f)
    return dng.raster(f, i)


def ask(it, call):
    x, files, seed = it
    b, a, e, pos, want = files
    rng = random.Random(seed)
    d = b
    for f in x["faults"]:
        k = tuple(f["at"])
        if k not in pos:
            return "missing", None
        n = damage(d, e, pos[k], f["how"], rng)
        if n is None:
            return "none", None
        d = n
    j, out = call({"op": "decode"}, d, 20)
    got, bad = outcome(j, out, a)
    if bad:
        return "bad", ("decoding: " + bad, d)
    if got not in x["allowed"]:
        return "bad", ("decoding yields %s, allowed is %r" % ("an error: %r" % j if got == "error" else "other samples" if got == "image" else "the samples", x["allowed"]), d)
    if seed % 4 == 0 or x["allowed"] == ["same"] and (len(x["faults"]) == 1 or seed % 3 == 0):
        j, out = call({"op": "convert", "name": "t.dng", "compression": "lossless" if seed % 17 == 0 else "none", "embedded": False, "preview": False, "thumbnail": seed % 5 == 0}, d, 30)
        if "died" in j or "hang" in j:
            return "bad", ("converting: no answer: %r" % j, d)
        if rawhost.failed(j):
            if "error" not in x["allowed"]:
                return "bad", ("converting fails: %r" % j, d)
        else:
            try:
                same = np.array_equal(image_of(out), a)
            except tiff.Bad as err:
                return "bad", ("the converted file is broken: %s" % err, d)
            if not same and "image" not in x["allowed"]:
                return "bad", ("the converted file holds other samples", d)
            if x["allowed"] == ["same"]:
                q = described(out)
                hit = {tuple(f["at"]) for f in x["faults"]}
                for k in want:
                    if k != "root" and ("root", {"exif": 34665, "gps": 34853}[k]) in hit:
                        continue
                    for t in want[k]:
                        if (k, t) in hit:
                            continue
                        if q.get(k, {}).get(t) != want[k][t]:
                            return "bad", ("tag %d (%s) of the converted file is %r instead of %r" % (t, k, q.get(k, {}).get(t), want[k][t]), d)
    return got, None


def parts(b, e):
    """Classes and ends of the parts of a file."""
    f = tiff.File(b)
    out = [{"class": "header", "end": 8}]
    raw = dng.find_raw(f)

    def walk(p, name):
        note = name in (34665, 34853)
        for i, tag in enumerate(sorted(p.ent)):
            vital = tag in (330, 50706) if p is not raw else tag in (256, 257, 273, 279, 322, 323, 324, 325)
            c = "note" if note else "dir" if vital else "decode" if tag in (254, 258, 259, 262, 277, 278, 284) else "value"
            out.append({"class": c, "end": p.off + 2 + 12 * (i + 1)})
        for t, x in p.ent.items():
            if len(x.raw) > 4:
                c = "dir" if t in (330,) else "block" if p is raw and t in (273, 279, 324, 325) else "note" if note or t in (306, 700, 33432) else "value"
                out.append({"class": c, "end": x.off + len(x.raw)})
        for t, l in p.sub.items():
            for y in l:
                walk(y, t)
    for r in f.roots:
        walk(r, "root")
    o, n = (273, 279) if 273 in raw.ent else (324, 325)
    for p, q in zip(raw.get(o), raw.get(n)):
        out.append({"class": "block", "end": p + q})
    return out


def cuts(it, call):
    b, a, n = it
    j, out = call({"op": "decode"}, b[:n], 20)
    return outcome(j, out, a)


def batch(ctx, files):
    """Damaged and good files in one directory: the good ones are converted, the command fails, nothing is left of the others."""
    cli = common.build_cli()
    for k in range(ctx.pick(3, 20)):
        d = common.scratch("p24", common.NOBODY)
        os.makedirs(d + "/in")
        os.makedirs(d + "/out")
        names = {}
        for i, (data, verdict) in enumerate(files[k * 12:(k + 1) * 12]):
            n = "%s%02d.dng" % ("abcdefgh"[ctx.rng.randrange(8)], i)
            names[n] = verdict
            with open(d + "/in/" + n, "wb") as fh:
                fh.write(data)
        for x in (d + "/in", d + "/out"):
            os.chmod(x, 0o777)
        p = subprocess.run([cli, "convert", "--embed-raw", "false", "--dng-preview", "false", "--dng-thumbnail", "false", d + "/in", d + "/out"], stdin=subprocess.DEVNULL, capture_output=True, timeout=120,
                           preexec_fn=common.demote, env={"PATH": "/usr/bin:/bin", "HOME": d}, cwd=d)
        got = set(os.listdir(d + "/out"))
        ctx.traces += len(names)
        bad = None
        if p.returncode < 0 or p.returncode >= 128:
            bad = "the command was ended by a signal: %d" % p.returncode
        elif (p.returncode == 0) != (all(v != "error" for v in names.values())):
            bad = "exit %d with %d damaged files" % (p.returncode, sum(v == "error" for v in names.values()))
        elif got != {n for n in names if names[n] != "error"}:
            bad = "outputs %s, expected %s" % (sorted(got), sorted(n for n in names if names[n] != "error"))
        if bad:
            ctx.violation("batch", {"files": {n: open(d + "/in/" + n, "rb").read().hex() for n in names}, "verdicts": names}, bad)


def run(ctx):
    pool = rawhost.Pool(8)
    kinds = [("strips", 16, 1), ("tiles", (32, 16), 7), ("strips", 0, 7), ("tiles", (16, 16), 1)]
    verdicts = {}
    for lay in ("strips", "tiles"):
        r = common.run_tlc("MCFaults", "SPECIFICATION Spec\nCONSTANTS Layout = \"%s\"\n One = {\"absent\", \"type2\", \"count0\", \"flip\"}\n Two = {%s}\nINVARIANT Judged\nCONSTRAINT EmitOnce\n" %
                           (lay, ctx.pick('"ones"', '"absent", "ones", "count0", "flip", "counthuge", "type7"')), ctx=ctx)
        one = {json.dumps(x, sort_keys=True): x for x in r.emitted}
        verdicts[lay] = [one[k] for k in sorted(one)]
    r = common.run_tlc("MCFaults", "SPECIFICATION Spec\nCONSTANTS Layout = \"strips\"\n One = {}\n Two = {}\nINVARIANT Judged\nPROPERTY Ends\n", ctx=ctx)
    items, batchfiles, tally = [], [], {}
    for i, (lay, arg, comp) in enumerate(kinds):
        for e in ctx.pick("<>"[i % 2], "<>"):
            b, a = base(ctx.seed * 100 + i, (lay, arg), comp, e)
            j, out = pool.call({"op": "convert", "name": "t.dng", "compression": "none", "embedded": False, "preview": False, "thumbnail": False}, b)
            if rawhost.failed(j):
                raise common.ToolError("the undamaged file: %r" % j)
            files = (b, a, e, entries(b, e), described(out))
            v = verdicts[lay]
            single = [x for x in v if len(x["faults"]) == 1]
            double = [x for x in v if len(x["faults"]) == 2]
            for x in single + ctx.rng.sample(double, min(len(double), ctx.pick(500, 30000))):
                items.append((x, files, ctx.rng.randrange(1 << 30)))
    ctx.need(len(items) > 5000, "faults")
    for it, (got, bad) in zip(items, pool.map(ask, items)):
        tally[got] = tally.get(got, 0) + 1
        if got in ("missing", "none"):
            continue
        ctx.traces += 1
        if bad:
            ctx.violation("fault:%s:%s" % (it[0]["faults"][0]["at"], it[0]["faults"][0]["how"]), {"faults": it[0]["faults"], "file": bad[1].hex()}, "%r: %s" % (it[0]["faults"], bad[0]))
            if ctx.too_many():
                return
        elif len(it[0]["faults"]) == 1 and it[0]["allowed"] in (["error"], ["same"]) and len(batchfiles) < 2000:
            rng = random.Random(it[2])
            f = it[0]["faults"][0]
            batchfiles.append((damage(it[1][0], it[1][2], it[1][3][tuple(f["at"])], f["how"], rng), got))
    ctx.need(tally.get("missing", 0) == 0 and tally.get("error", 0) > 500 and tally.get("same", 0) > 2000, "outcomes %r" % tally)
    for k, v in tally.items():
        ctx.count("outcome_" + str(k), v)
    recs, meta = [], []
    for i, (lay, arg, comp) in enumerate(kinds):
        for e in "<>":
            b, a = base(ctx.seed * 100 + i, (lay, arg), comp, e)
            ps = parts(b, e)
            ends = sorted({p["end"] for p in ps})
            ns = sorted({n for x in ends for n in (x - 1, x)} | {ctx.rng.randrange(len(b)) for _ in range(ctx.pick(150, 2000))} | {0, 1, len(b)})
            for n, (got, bad) in zip(ns, pool.map(cuts, [(b, a, n) for n in ns])):
                if bad:
                    ctx.violation("cut:answer", {"file": b[:n].hex()}, "cut to %d of %d bytes: %s" % (n, len(b), bad))
                    continue
                recs.append({"parts": ps, "len": n, "outcome": got})
                meta.append(b[:n])
    for x in common.validate("FaultsTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", recs, ctx):
        k = x["reject"] - 1
        ctx.violation("cut:" + x["why"], {"file": meta[k].hex()}, "a file cut to %d bytes yields: %s" % (recs[k]["len"], x["why"]))
        if ctx.too_many():
            return
    ctx.count("cut_files", len(recs))
    ctx.rng.shuffle(batchfiles)
    batch(ctx, batchfiles)
    ctx.sample({"faults": items[0][0]})
    ctx.assumptions.append("a caught panic counts as a reported error; damage to compressed sample data themselves is not part of this check")
