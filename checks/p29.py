"""P29: capture metadata survives conversion and development (spec/Metadata.tla, MCMetadata.tla, MetadataTrace.tla)."""
import json
import os
import random
import re
import subprocess
import time
import numpy as np
from lib import cams, common, dng, rawhost, tiff

ROOT = (271, 272, 274, 315, 33432, 50708, 50736)
FORMATS = ("MEF", "ERF", "MRW", "3FR", "KDC", "PEF", "SRW", "ORF", "ARW", "NEF", "DCS")


def flip(b, typ):
    """values with the least significant byte first to most significant first, and back"""
    u = {7: 1, 2: 1, 1: 1, 6: 1, 5: 4, 10: 4}.get(typ) or tiff.UNIT[typ]
    return b"".join(b[i:i + u][::-1] for i in range(0, len(b), u))


def entries(src, d):
    return {e["tag"]: (e["type"], bytes(e["b"]) if e["type"] in (1, 2, 7) else tiff.Raw(flip(bytes(e["b"]), e["type"]))) for e in src if e["d"] == d}


def as_dng(src, seed):
    r = random.Random(seed)
    px = np.random.default_rng(seed % (1 << 32)).integers(0, 4096, (12, 12))
    return dng.make(px, e=r.choice("<>"), orientation=None, rootextra=entries(src, "root"), exif=entries(src, "exif") or None, gps=entries(src, "gps") or None, sub=r.random() < .6, black=[0], white=[4095])


def facts(data, to):
    """the capture metadata of a written file, and whether it says which program wrote it"""
    f = tiff.File(data)
    root = f.roots[0]
    out = []
    for d, ifd, tags in (("root", root, ROOT + ((306,) if to == "tif" else ())), ("exif", root.sub.get(34665, [None])[0], None), ("gps", root.sub.get(34853, [None])[0], None)):
        for tag, x in (ifd.ent if ifd else {}).items():
            if tags is None or tag in tags:
                out.append({"d": d, "tag": tag, "type": x.typ, "b": list(x.raw if f.e == "<" else flip(x.raw, x.typ))})
    return out, {t: bytes(root.ent[t].raw).split(b"\0")[0].decode() for t in (305, 306) if t in root.ent}


FIELDS = {}


def text(r):
    s = "".join(r.choice("abcXYZ 0123456789:-_/.,+()") for _ in range(r.choice([0, 1, 2, 3, 4, 5, 12, 40])))
    if r.random() < .15:
        s += r.choice(["é", "日本", "ß."])
    return r.choice(["", "", " ", "  \t"]) + s + r.choice(["", "", " ", "   "])


def value(r, f):
    typ, kind = f["type"], f["kind"]
    if kind in ("text", "trim"):
        t = text(r).encode()
        return t + (b"\0" if r.random() < .8 or not t else b"") if r.random() < .9 else t + b"\0\0" + r.randbytes(2)
    n = {"one": r.choice([1, 1, 1, 2]), "3": 3, "4": 4, "all": r.choice([1, 2, 2, 9, 30])}[kind]
    if typ == 3:
        return b"".join(r.choice([0, 1, r.randrange(1, 9) if f["tag"] == 274 else r.randrange(65536)]).to_bytes(2, "little") if f["tag"] != 274 else r.randrange(1, 9).to_bytes(2, "little") for _ in range(n))
    if typ == 8:
        return b"".join(r.randrange(-12, 15).to_bytes(2, "little", signed=True) for _ in range(min(n, 2)))
    return r.randbytes(n * {1: 1, 7: 1, 4: 4, 5: 8, 10: 8}[typ])


def source(r, dirs=("root", "exif", "gps")):
    """entries of the directories of a source"""
    p = r.choice([.1, .3, .7, 1])
    out = []
    for d in dirs:
        for f in FIELDS["gps" if d == "gps" else "exif"]:
            if r.random() < (p if d != "root" or f["tag"] in (274, 306, 315, 33432) else p / 4):
                out.append({"d": d, "tag": f["tag"], "type": f["type"], "b": list(value(r, f))})
    return out


def camera(db, keys, seed, bare=False):
    """a camera file with capture metadata (bare: the same file without)"""
    r = random.Random(seed)
    fmt = r.choice(FORMATS)
    key = r.choice([k for k, f in keys if f == fmt])
    c = cams.Case(r, db, key, fmt)
    src = source(r, ("root",) if fmt == "MRW" else ("root", "exif", "gps"))
    if fmt in ("ORF", "MRW"):      # main directories of a fixed place
        src = [e for e in src if len(e["b"]) < 60]
    if bare:
        src = []
    c.meta = {d: entries(src, d) for d in ("root", "exif", "gps")}
    f = cams.WRITERS[fmt](c)
    e = c.cams[""]
    if fmt == "MRW" and not any(x["tag"] == 306 for x in src):
        src.append({"d": "root", "tag": 306, "type": 2, "b": list(b"2004:01:01 00:00:00\0")})
    return f, src, e["make"], e["model"], c


def names(rec, make, model):
    rec.update(make=list(make.encode()), model=list(model.encode()))
    return rec


NOTIME = {"keep": False, "date": [], "hours": [], "offset": [], "file": 0, "got": 0}


def through(it, call):
    """one conversion inside of the host process"""
    data, rec, seed = it
    r = random.Random(seed)
    opt = rec["opt"]
    h = {"op": "convert" if opt["to"] == "dng" else "tif", "thumbnail": r.random() < .6, "preview": r.random() < .6, "compression": r.choice(["none", "lossless"]), "embedded": r.random() < .5}
    if opt["artist"]:
        h["artist"] = bytes(opt["artist"]).decode()
    j, out = call(h, data, 60)
    ok = lambda j: not (rawhost.failed(j) or "died" in j or "hang" in j)
    rec.update(ok=ok(j), out=[], fresh=True, time=NOTIME, why=str(j)[:300])
    if not rec["ok"] and "bare" in rec:
        # images whose own levels or areas cannot be written are not about their metadata
        rec["skip"] = not ok(call(h, rec["bare"](), 60)[0])
    if rec["ok"]:
        rec["out"], said = facts(out, opt["to"])
        rec["fresh"] = opt["to"] == "tif" or said.get(305) == "DNGLab" and re.fullmatch(r"\d{4}:\d\d:\d\d \d\d:\d\d:\d\d", said.get(306, "")) is not None
    return rec


def batches(ctx, exe, cases):
    """the command line program on directories of sources; cases: (data, ext, rec, time facts)"""
    groups = {}
    for c in cases:
        groups.setdefault((c[2]["opt"]["to"], bytes(c[2]["opt"]["artist"]), c[3]["keep"]), []).append(c)
    done = []
    for (to, artist, keep), part in sorted(groups.items(), key=lambda x: x[0]):
        base = common.scratch("meta", common.NOBODY)
        a, b = base + "/in", base + "/out"
        os.mkdir(a)
        os.mkdir(b)
        os.chmod(b, 0o777)
        for k, (data, ext, rec, t) in enumerate(part):
            p = "%s/f%04d.%s" % (a, k, ext)
            open(p, "wb").write(data)
            os.utime(p, (t["file"], t["file"]))
        os.chmod(base, 0o777)
        argv = [exe, "convert" if to == "dng" else "process-raw"] + (["--artist", artist.decode()] if artist else []) + (["--keep-mtime", "true"] if keep else []) + (["--embed-raw", "false"] if to == "dng" else []) + [a, b]
        began = time.time()
        p = subprocess.run(argv, user=common.NOBODY, group=common.NOBODY, extra_groups=[], capture_output=True, timeout=300, env={"PATH": "/usr/bin:/bin", "HOME": base, "TZ": "UTC"}, cwd=base)
        ended = time.time()
        for k, (data, ext, rec, t) in enumerate(part):
            o = "%s/f%04d.%s" % (b, k, to)
            rec.update(ok=os.path.exists(o), out=[], fresh=True, time={**t, "got": 0}, why=p.stderr[-300:].decode("utf-8", "replace"))
            if rec["ok"]:
                rec["out"], said = facts(open(o, "rb").read(), to)
                rec["time"]["got"] = int(os.stat(o).st_mtime)
                if to == "dng":
                    s = said.get(306, "")
                    try:
                        at = time.mktime(time.strptime(s, "%Y:%m:%d %H:%M:%S")) - time.timezone
                    except ValueError:
                        at = 0
                    rec["fresh"] = said.get(305, "").startswith("DNGLab") and (began - 2 <= at <= ended + 2 or bool(time.timezone))
            done.append((data, rec))
    return done


def timed(r, src):
    """dates a file time can be taken from: the date of the last change, and the zone it is in"""
    src = [e for e in src if e["tag"] not in (306, 34858, 36880)]
    t = {**NOTIME, "keep": True, "file": r.randrange(500000000, 1700000000)}
    kind = r.choice(["date", "date", "date", "none", "bad"])
    if kind == "date":
        t["date"] = [r.randrange(1972, 2037), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)]
        if r.random() < .1:
            t["date"][1:3] = r.choice([[2, 28], [3, 1], [12, 31], [1, 1]])
        s = "%04d:%02d:%02d %02d:%02d:%02d" % tuple(t["date"])
    elif kind == "bad":
        s = r.choice(["0000:00:00 00:00:00", "", "yesterday", "2020:13:41 99:99:99", "    :  :     :  :  "])
    if kind != "none":
        src.append({"d": r.choice(["root", "root", "exif"]), "tag": 306, "type": 2, "b": list(s.encode() + b"\0")})
    if r.random() < .4:
        h = r.randrange(-12, 15)
        n = r.choice([1, 2, 2])
        src.append({"d": "exif", "tag": 34858, "type": 8, "b": [x for k in range(n) for x in (h if k == 1 else 3).to_bytes(2, "little", signed=True)]})
        if n == 2:
            t["hours"] = [h]
    if r.random() < .4:
        m = 15 * r.randrange(-48, 57)
        src.append({"d": "exif", "tag": 36880, "type": 2, "b": list(b"%s%02d:%02d\0" % (b"-" if m < 0 else b"+", abs(m) // 60, abs(m) % 60))})
        t["offset"] = [m]
    return src, t


def run(ctx):
    pool = rawhost.Pool(8)
    exe = common.build_cli()
    db = cams.database(common.REPO)
    keys = [(k, cams.format_of(k, v)) for k, v in sorted(db.items())]
    # the model's sources
    items, want = [], []
    for fam in ("each", "both", "some"):
        m = common.run_tlc("MCMetadata", 'SPECIFICATION Spec\nCONSTANTS Family = "%s"\nMost = %d\nINVARIANTS Kept Honest OneEach Same\nCONSTRAINT Emit\n' % (fam, ctx.pick(3, 5)), ctx=ctx)
        seen = set()
        for x in m.emitted:
            k = json.dumps(x, sort_keys=True)
            if k not in seen:
                seen.add(k)
                items.append(x)
    ctx.need(len(items) > 1500, "only %d model sources" % len(items))
    for x in items:
        for e in x["src"]:
            FIELDS.setdefault("gps" if e["d"] == "gps" else "exif", {})[e["tag"]] = e["type"]
    kind = {}
    for d in FIELDS:
        FIELDS[d] = [{"tag": t, "type": y, "kind": "3" if d == "gps" and t in (2, 4, 7, 20, 22) else "4" if t == (0 if d == "gps" else 42034) else
                      "all" if t in ((27, 28) if d == "gps" else (34858,)) else "text" if y == 2 else "one"} for t, y in sorted(FIELDS[d].items())]
    ctx.need(len(FIELDS["exif"]) == 43 and len(FIELDS["gps"]) == 32, "fields")
    jobs, direct = [], []
    for k, x in enumerate(items):
        rec = names({"src": x["src"], "opt": x["opt"]}, "Acme", "Model T")
        (direct if x["opt"]["to"] == "tif" and x["opt"]["artist"] else jobs).append((as_dng(x["src"], ctx.rng.randrange(1 << 40)), rec, ctx.rng.randrange(1 << 40)))
    batch = [(d, "dng", r, NOTIME) for d, r, _ in direct]
    # random sources: DNG and camera files
    for k in range(ctx.pick(1200, 20000)):
        r = random.Random(ctx.rng.randrange(1 << 40))
        opt = {"to": r.choice(["dng", "dng", "tif"]), "artist": []}
        if r.random() < .5:
            src = source(r)
            data, rec = as_dng(src, r.randrange(1 << 40)), names({"src": src, "opt": opt}, "Acme", "Model T")
        else:
            seed = r.randrange(1 << 40)
            data, src, make, model, c = camera(db, keys, seed)
            rec = names({"src": src, "opt": opt, "bare": lambda seed=seed: camera(db, keys, seed, True)[0], "camera": (c.key, c.fmt)}, make, model)
        jobs.append((data, rec, r.randrange(1 << 40)))
    # the program itself: file times and artist
    for k in range(ctx.pick(240, 1500)):
        r = random.Random(ctx.rng.randrange(1 << 40))
        opt = {"to": r.choice(["dng", "tif"]), "artist": list(r.choice([b"", b"", b"Jane Roe"]))}
        src, t = source(r), NOTIME
        if r.random() < .7:
            src, t = timed(r, src)
        batch.append((as_dng(src, r.randrange(1 << 40)), "dng", names({"src": src, "opt": opt}, "Acme", "Model T"), t))
    done = [(j[0], rec) for j, rec in zip(jobs, pool.map(through, jobs))] + batches(ctx, exe, batch)
    every = len(done)
    done = [x for x in done if not x[1].get("skip")]
    ctx.need(len(done) > every * .85, "%d of %d sources left" % (len(done), every))
    for d, r in done:
        r.pop("bare", None)
    for at in range(0, len(done), 3000):
        part = done[at:at + 3000]
        for x in common.validate("MetadataTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", [{k: v for k, v in r.items() if k not in ("why", "camera")} for _, r in part], ctx):
            data, rec = part[x["reject"] - 1]
            ctx.violation(x["why"], {"file": data.hex() if len(data) < 60000 else len(data), "rec": rec},
                          "%s; to %s, camera %r: %s; source %s" % (x["why"], rec["opt"]["to"], rec.get("camera"), rec["why"] if not rec["ok"] else rec["time"] if "time" in x["why"] else
                              [e for e in rec["out"] if x["why"].endswith(" %d" % e["tag"])], [e for e in rec["src"] if x["why"].endswith(" %d" % e["tag"])] or rec["src"][:3]))
            if ctx.too_many():
                return
