"""Materialise the scenarios of spec/Batch.tla, run the real dnglab on them and compare with the model's outcomes."""
import hashlib, json, os, re, shutil, struct, subprocess, zlib
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from . import common, dng, tiff

OLD = b"this file was here before\n" * 7


def embed(data):
    """OriginalRawFileData: one fork of zlib blocks of 64 KiB, six empty forks (DNG specification)."""
    blocks = [zlib.compress(data[i:i + 65536]) for i in range(0, len(data), 65536)]
    off = 4 + 4 * (len(blocks) + 1)
    out = struct.pack(">I", len(data)) + struct.pack(">I", off)
    for b in blocks:
        off += len(b)
        out += struct.pack(">I", off)
    return out + b"".join(blocks) + b"\0" * 28


def pattern(key, h=8, w=8):
    seed = int.from_bytes(hashlib.sha1(key.encode()).digest()[:4], "big")
    return np.random.default_rng(seed).integers(0, 65536, (h, w))


def original(key):
    seed = int.from_bytes(hashlib.sha1(("o" + key).encode()).digest()[:4], "big")
    return np.random.default_rng(seed).integers(0, 256, 500 + seed % 1000).astype(np.uint8).tobytes()


def source_bytes(cmd, f, path):
    cls = f["cls"]
    tag = ("#" + path).encode()
    if cls in ("good", "unread") and cmd != "extract":
        return dng.make(pattern(path))
    if cls == "bad":
        return tiff.build([tiff.Ifd({256: (4, 1), 271: (2, "NIKON CORPORATION"), 272: (2, "NIKON D9999")})]) + tag
    if cls == "unsup":
        return b"certainly not a raw file " * 8 + tag
    if cls == "panic":
        # readable DNG whose levels contradict its layout: decoding cannot succeed
        return dng.make(pattern(path), black=[1, 2, 3])
    if cls == "empty":
        return b""
    if cmd == "extract":
        data = original(path)
        x = {}
        if cls in ("good", "corrupt"):
            x[50827] = (tiff.ASCII, f["orig"])
        if cls in ("good", "corrupt", "noname"):
            x[50828] = (tiff.UNDEF, embed(data))
            dig = bytearray(hashlib.md5(data).digest())
            if cls == "corrupt":
                dig[3] ^= 1
            x[50973] = (tiff.BYTE, bytes(dig))
        return dng.make(pattern(path), rootextra=x)
    raise common.ToolError("class " + cls)


def path_of(f):
    base = f["stem"] + ("." + f["ext"] if f["ext"] else "")
    return "in/" + (f["dir"] + "/" if f["dir"] else "") + base


class World:
    def __init__(self, exe, scn, files, pre, base):
        self.exe, self.scn, self.files, self.pre, self.base = exe, scn, files, pre, base
        self.src = {}
        self.fs0 = {}

    def build(self):
        b = self.base
        s = self.scn
        os.makedirs(b + "/in")
        if not s["same"]:
            os.makedirs(b + "/out")
        for f in self.files:
            p = path_of(f)
            os.makedirs(os.path.dirname(b + "/" + p), exist_ok=True)
            if f["cls"] == "dangling":
                os.symlink("/nonexistent/target", b + "/" + p)
            elif f["cls"] == "dir":
                os.makedirs(b + "/" + p)
            else:
                data = source_bytes(s["cmd"], f, p)
                open(b + "/" + p, "wb").write(data)
                self.src[p] = data
                if f["cls"] == "unread":
                    os.chmod(b + "/" + p, 0)
        for q in self.pre:
            p = b + "/" + q["path"]
            if os.path.lexists(p):
                continue
            if q["kind"] == "old":
                open(p, "wb").write(OLD)
            elif q["kind"] == "dir":
                os.makedirs(p)
            elif q["kind"] == "link":
                os.symlink(os.path.relpath("%s/in/%s" % (b, "a.dng" if s["cmd"] == "extract" else "a.nef"), os.path.dirname(p)), p)
            elif q["kind"].startswith("src:"):
                os.link(b + "/" + q["kind"][4:], p)
            else:
                # dangling, but its target could be created
                os.symlink(os.path.relpath(b + "/victim", os.path.dirname(p)), p)
        for d, ds, fs in os.walk(b):
            for x in [d] + [d + "/" + y for y in ds + fs]:
                os.lchown(x, common.NOBODY, common.NOBODY)
        self.fs0 = self.snapshot()

    def argv(self, extra=()):
        s = self.scn
        out = "in" if s["same"] else "out"
        if s["mode"] == "file":
            inp = path_of(self.files[0])
            if s["target"]:
                out += "/" + s["target"]
        else:
            inp = "in"
        a = {"convert": ["convert", "-j", str(s["conc"]), "-c", "uncompressed", "--dng-preview", "false", "--dng-thumbnail", "false", "--embed-raw", "false"],
             "process": ["process-raw"], "extract": ["extract"] + (["--skipchecks"] if s["skip"] else [])}[s["cmd"]]
        a = a + (["-f"] if s["force"] else []) + (["-r"] if s["rec"] else []) + list(extra)
        return [self.exe] + a + [inp, out]

    def run(self, extra=(), limit=None, timeout=60, env=None):
        import resource, signal

        def pre():
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        try:
            r = subprocess.run(self.argv(extra), cwd=self.base, user=common.NOBODY, group=common.NOBODY, extra_groups=[], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, env=dict({"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "HOME": self.base}, **(env or {})),
                               preexec_fn=pre if limit is not None else None)
        except subprocess.TimeoutExpired:
            return {"exit": "timeout", "ok": None, "total": None, "failed": [], "fs": self.snapshot(), "err": ""}
        err = r.stderr.decode("utf8", "replace")
        m = re.search(r"(?:Converted|Processed|Extracted) (\d+)/(\d+) files(, (\d+) failed:)?", err)
        failed = []
        if m and m.group(3):
            for line in err[m.end():].splitlines()[1:]:
                if not line.startswith("   "):
                    break
                failed.append(os.path.relpath(line.strip(), os.path.realpath(self.base)))
        return {"exit": r.returncode, "ok": int(m.group(1)) if m else None, "total": int(m.group(2)) if m else None,
                "nfail": (int(m.group(4)) if m.group(4) else 0) if m else None, "failed": sorted(failed), "fs": self.snapshot(), "err": err[-1500:]}

    def classify(self, path, data):
        if data == OLD:
            return "old"
        if data == b"theirs":
            return "theirs"
        if path in self.src and self.src[path] == data:
            return "src:" + path
        for p, d in self.src.items():
            if d == data and d:
                return "src:" + p
        if self.scn["cmd"] == "extract":
            for f in self.files:
                if data == original(path_of(f)):
                    return "of:" + path_of(f)
            return "unknown(%d bytes)" % len(data)
        try:
            t = tiff.File(data)
            if t.problems:
                return "malformed: " + t.problems[0]
            if self.scn["cmd"] == "convert":
                px = dng.raster(t, dng.find_raw(t))
                for f in self.files:
                    if f["cls"] in ("good", "unread", "panic") and px.shape == (8, 8) and (px == pattern(path_of(f))).all():
                        return "of:" + path_of(f)
            else:
                h = develop_hash(t)
                for f in self.files:
                    if REF.get(path_of(f)) == h:
                        return "of:" + path_of(f)
        except tiff.Bad as e:
            return "malformed: %s" % e
        except Exception as e:
            return "malformed: %r" % e
        return "unknown(%d bytes)" % len(data)

    def snapshot(self):
        out = {}
        for top in ("in", "out"):
            if not os.path.lexists(self.base + "/" + top):
                continue
            out[top] = "dir"
            for d, ds, fs in os.walk(self.base + "/" + top):
                for x in ds + fs:
                    full = d + "/" + x
                    rel = os.path.relpath(full, self.base)
                    if os.path.islink(full):
                        out[rel] = "link" if os.path.exists(full) else "dangling"
                    elif os.path.isdir(full):
                        out[rel] = "dir"
                    else:
                        out[rel] = self.classify(rel, open(full, "rb").read())
        # anything outside of in/ and out/ is an escape
        for x in os.listdir(self.base):
            if x not in ("in", "out"):
                out[x] = "escaped"
        return out

    def remove(self):
        shutil.rmtree(self.base, ignore_errors=True)


REF = {}


def develop_hash(t):
    for i in t.ifds():
        if 273 in i.ent and i.one(254, 0) == 0 and i.one(256) and i.one(256) >= 8:
            h = hashlib.sha1()
            for o, n in zip(i.get(273), i.get(279)):
                h.update(t.d[o:o + n])
            return h.hexdigest()
    raise tiff.Bad("no image")


def learn_reference(exe, pool):
    """Developed pixels of every good source on its own (process-raw has no independent oracle here: it is only used to tell sources apart)."""
    for f in pool:
        if f["cls"] != "good" or path_of(f) in REF:
            continue
        b = common.scratch("ref", owner=common.NOBODY)
        w = World(exe, {"cmd": "process", "mode": "file", "same": False, "target": "r.tif", "conc": 1, "force": False, "rec": False, "skip": False}, [f], [], b)
        w.build()
        w.run()
        try:
            REF[path_of(f)] = develop_hash(tiff.File(open(b + "/out/r.tif", "rb").read()))
        except (OSError, tiff.Bad) as e:
            raise common.ToolError("no reference for %s: %s" % (path_of(f), e))
        w.remove()
    if len(set(REF.values())) != len(REF):
        raise common.ToolError("reference images are not distinct")


INVS = "TypeOK NoClobber InputsStay Distinct OutputsRight NoPartial FailedLeavesNothing Accounted Isolation"


def model(ctx, cmd, maxfiles=2, conc="{2}", big="NoSets", racer=False):
    cfg = """SPECIFICATION Spec
CONSTANTS Scenarios <- MCScenarios Racer = %s Cmd = "%s" MaxFiles = %d Big <- %s Conc = %s
INVARIANTS %s
%s
""" % ("TRUE" if racer else "FALSE", cmd, maxfiles, big, conc, INVS, "CONSTRAINT Emit")
    r = common.run_tlc("MCBatch", cfg, ctx=ctx, timeout=850)
    groups, usage = {}, []
    for e in r.emitted:
        if "usage" in e:
            usage.append(e)
            continue
        k = json.dumps(e["scn"], sort_keys=True)
        groups.setdefault(k, (e["scn"], []))[1].append(e)
    return list(groups.values()), usage


def asrec(fs):
    return dict(fs) if isinstance(fs, dict) else {}


def explain(w, outs, o):
    """All ways in which observation o differs from what the model allows: {aspect: text}."""
    s = w.scn
    d = {}
    fs0, fs = w.fs0, o["fs"]
    if o["exit"] == "timeout":
        return {"hang": "did not terminate"}
    inputs = {path_of(f) for f in w.files}
    for p in sorted(fs0):
        if p in inputs and fs.get(p) != fs0[p]:
            d["input"] = "input %s became %s" % (p, fs.get(p, "absent"))
        elif p not in inputs and fs.get(p) != fs0[p] and not s["force"]:
            d["clobber"] = "existing %s (%s) became %s" % (p, fs0[p], fs.get(p, "absent"))
    if "victim" in fs:
        d["clobber"] = "written through the link that was under the output name"
    bad = {p: c for p, c in fs.items() if c.startswith(("unknown", "malformed", "escaped")) and fs0.get(p) != c}
    if bad:
        d["partial"] = "incomplete or foreign output %r" % bad
    failed = set(o["failed"])
    for p, c in fs.items():
        if c.startswith("of:") and c[3:] in failed:
            d["partial"] = "failed source %s left %s" % (c[3:], p)
    mf = [asrec(x["fs"]) for x in outs]
    if fs not in mf:
        d["tree"] = "result %r, the specification allows %r" % ({p: c for p, c in fs.items() if fs0.get(p) != c}, [{p: c for p, c in m.items() if fs0.get(p) != c} for m in mf][:3])
    acc = [(x["exit"], x["ok"], x["total"], sorted(x["failed"])) for x in outs]
    usage = s["mode"] == "file" and s["cmd"] == "extract" and o["total"] is None
    got = (o["exit"], o["ok"], o["total"], o["failed"])
    if usage:
        if o["exit"] not in [a[0] for a in acc] or o["exit"] == 0:
            d["account"] = "exit %r, the specification allows %r" % (o["exit"], acc)
    elif got not in acc:
        d["account"] = "exit/converted/total/failed %r, the specification allows %r" % (got, acc[:3])
    elif o["nfail"] != len(o["failed"]) and o["total"]:
        d["account"] = "summary says %r failed but lists %r" % (o["nfail"], o["failed"])
    # both aspects together must come from one outcome of the model
    if not d and not usage and not any(fs == asrec(x["fs"]) and got == (x["exit"], x["ok"], x["total"], sorted(x["failed"])) for x in outs):
        d["tree"] = "tree and summary contradict each other"
    return d


_SHIM = []


def shim():
    """The interposer that lets another party create an output at the worst moment."""
    if not _SHIM:
        d = common.scratch("shim")
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", d + "/race.so", os.path.join(common.VERIF, "lib", "race.c"), "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise common.ToolError("race shim: " + r.stderr)
        _SHIM.append(d + "/race.so")
    return _SHIM[0]


def drive_race(ctx, exe, groups, want):
    """Scenarios in which the model lets another process create output p: replayed with the file appearing just before ours is created."""
    base = common.scratch("race")
    so = shim()
    todo = []
    for scn, outs in groups:
        for p in sorted({p for x in outs for p, c in asrec(x["fs"]).items() if c == "theirs"}):
            todo.append((scn, [x for x in outs if asrec(x["fs"]).get(p) == "theirs"], outs, p))

    def one(i):
        scn, won, outs, p = todo[i]
        w = World(exe, scn, sorted(scn["files"], key=path_of), scn["pre"], "%s/%d" % (base, i))
        os.makedirs(w.base)
        try:
            w.build()
            o = w.run(env={"LD_PRELOAD": so, "RACE_AT": p})
            hit = o["fs"].get(p) == "theirs"
            allowed = won if not scn["force"] or hit else outs
            return scn, allowed, o, explain(w, allowed, o), p
        finally:
            w.remove()
    with ThreadPoolExecutor(8) as ex:
        for scn, outs, o, d, p in ex.map(one, range(len(todo))):
            ctx.traces += 1
            ctx.count("races_" + scn["cmd"])
            if d.get("tree") and o["fs"].get(p) != "theirs" and not scn["force"]:
                d["clobber"] = "another process created %s just before this run did; it holds %s afterwards" % (p, o["fs"].get(p, "nothing"))
            for a, msg in d.items():
                if a in want and not ctx.too_many():
                    ctx.violation("race-%s:%s:%s" % (a, scn["cmd"], scn["mode"]), {"scenario": scn, "at": p, "observed": o, "allowed": outs}, msg)


def drive(ctx, exe, groups, want, extra=(), label=""):
    """Run scenarios; `want` maps an aspect to a violation key prefix (aspects not in it are other properties' business)."""
    base = common.scratch("batch")

    def one(i):
        scn, outs = groups[i]
        w = World(exe, scn, sorted(scn["files"], key=path_of), scn["pre"], "%s/%d" % (base, i))
        os.makedirs(w.base)
        try:
            w.build()
            o = w.run(extra)
            if o["exit"] == "timeout":
                shutil.rmtree(w.base, ignore_errors=True)
                os.makedirs(w.base)
                w.build()
                o = w.run(extra, timeout=120)
            return scn, outs, o, explain(w, outs, o)
        finally:
            w.remove()
    if groups and groups[0][0]["cmd"] == "process":
        pool = {}
        for scn, _ in groups:
            for f in scn["files"]:
                pool[path_of(f)] = f
        learn_reference(exe, pool.values())
    with ThreadPoolExecutor(8) as ex:
        for scn, outs, o, d in ex.map(one, range(len(groups))):
            ctx.traces += 1
            ctx.count("scenarios_" + scn["cmd"])
            ctx.sample({"scenario": scn, "observed": {k: v for k, v in o.items() if k != "err"}})
            for a, msg in d.items():
                if a in want and not ctx.too_many():
                    ctx.violation("%s:%s:%s" % (a, scn["cmd"], scn["mode"]), {"scenario": scn, "observed": o, "allowed": outs}, msg)
            if o["exit"] == 0:
                ctx.count("runs_all_ok")
            else:
                ctx.count("runs_with_failures")


def choose(ctx, groups, n, interesting=None):
    """Sample of the scenario space, preferring those where the property can be broken."""
    groups = sorted(groups, key=lambda g: json.dumps(g[0], sort_keys=True))
    ctx.rng.shuffle(groups)
    if n is None or len(groups) <= n:
        return groups
    a = [g for g in groups if interesting and interesting(g[0], g[1])]
    b = [g for g in groups if not (interesting and interesting(g[0], g[1]))]
    k = min(len(a), n * 3 // 4) if a else 0
    return a[:k] + b[:n - k]
