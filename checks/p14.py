"""P14: the stored original name cannot lead extraction out of the chosen directory (spec/ExtractName.tla)."""
import hashlib, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from lib import common, dng, tiff
from checks.p13 import rebuild
import zlib


def snapshot(d):
    o = {}
    for dp, dn, fn in os.walk(d):
        for n in dn + fn:
            p = os.path.join(dp, n)
            o[os.path.relpath(p, d)] = os.readlink(p) if os.path.islink(p) else "dir" if os.path.isdir(p) else open(p, "rb").read()
    return o


def run(ctx):
    exe = common.build_cli()
    res = common.run_tlc("ExtractName", """SPECIFICATION Spec
CONSTANTS MaxComp = %d Comps = {"", ".", "..", "a", "orig.nef"}
INVARIANTS Contained Kept
CONSTRAINT Emit
""" % ctx.pick(4, 5), ctx=ctx)
    scen = {}
    for e in res.emitted:
        scen.setdefault((tuple(e["name"]), e["mode"], e["over"]), []).append((e["out"]["k"], "/".join(e["out"]["at"])))
    keys = sorted(scen)
    plain = [k for k in keys if len(k[0]) == 1]
    if ctx.quick:
        rest = [k for k in keys if len(k[0]) > 1]
        ctx.rng.shuffle(rest)
        # all short names, a sample of the long ones
        keys = plain + [k for k in rest if len(k[0]) <= 2 or k[0][0] == ""][:400] + rest[:300]
    data = b"the original " * 20
    blob, md5 = rebuild(len(data), [zlib.compress(data)]), hashlib.md5(data).digest()
    r16 = np.arange(64).reshape(8, 8)
    # names no component alphabet covers: (stored bytes, plain name it must be stored as or None if anything contained is fine)
    odd = [(b"x" * 300, None), (b"back\\slash.nef", "back\\slash.nef"), (b"..\\..\\x.nef", "..\\..\\x.nef"), (b"a\0../../evil", "a"), (b"../evil\0b", None), (b"\0", None), (b"C:evil.nef", "C:evil.nef"),
           (b"sp ace\n.nef", "sp ace\n.nef"), (b"...", "..."), (b" lead", " lead"), (b"trail.nef ", "trail.nef "), (b"dot.", "dot."), (b" ", " "), (b"~", "~"), (b"-f", "-f"), (b"$HOME", "$HOME"), (b"\xff\xfe/../../evil", None), (b"....//evil", None),
           (b"link/evil", None), (b"dirlink/evil", None), ("größe.nef".encode(), "größe.nef"), (b"%2e%2e%2fevil", "%2e%2e%2fevil")]
    jobs = [("model",) + k for k in keys] + [("odd", n, m, o, want) for n, want in odd for m in ("dir", "batch", "sub") for o in (False, True)]

    def one(job):
        d = common.scratch("n14", common.NOBODY)
        try:
            w = d + "/deep/er/work"
            for x in ("out/sub", "in/sub", "out/a", "out/sub/a", "outside"):
                os.makedirs(w + "/" + x)
            # what an escaping name could hit
            for x in ("orig.nef", "evil", "outside/orig.nef", "outside/a", "in/keep", "../orig.nef", "../a", "../../a", "../../orig.nef"):
                if not os.path.exists(w + "/" + x):
                    open(w + "/" + x, "wb").write(b"victim " + x.encode())
            os.rmdir(w + "/out/a"), os.rmdir(w + "/out/sub/a")
            os.symlink("../outside", w + "/out/dirlink")
            kind, name, mode, over = job[:4]
            if kind == "model":
                s = "/".join(name)
                if name[0] == "" and any(c not in ("", ".", "..") for c in name):
                    s = w + "/outside" + s     # absolute, but inside the scratch directory
                raw = s.encode() or b"\0"
            else:
                raw = name
            img = dng.make(r16, rootextra={50827: (tiff.ASCII, raw), 50828: (tiff.UNDEF, blob), 50973: (tiff.BYTE, md5)})
            src = "in/sub/w.dng" if mode == "sub" else "in/w.dng"
            open(w + "/" + src, "wb").write(img)
            subprocess.run(["chown", "-Rh", "%d:%d" % (common.NOBODY, common.NOBODY), d], check=True)
            before = snapshot(d)
            a = [exe, "extract"] + (["-f"] if over else []) + {"dir": [src, "out"], "file": [src, "out/given.bin"], "batch": ["in", "out"], "sub": ["-r", "in", "out"]}[mode]
            r = subprocess.run(a, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=common.demote, timeout=60)
            after = snapshot(d)
            base = "deep/er/work/"
            changed = {k[len(base):] if k.startswith(base) else "//" + k for k in set(before) | set(after) if before.get(k) != after.get(k)}
            good = all(after.get(base + c) == data for c in changed)
            return raw, r.returncode, changed, good, r.stdout.decode(errors="replace")[-300:]
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, jobs))
    for job, (raw, rc, changed, good, log) in zip(jobs, outs):
        ctx.traces += 1
        kind, name, mode, over = job[:4]
        case = {"name": repr(raw), "mode": mode, "override": over, "exit": rc, "changed": sorted(changed), "log": log}
        home = "out/sub/" if mode == "sub" else "out/"
        if rc < 0 or rc > 63:
            ctx.violation("crash", case, "extract died with %d" % rc)
        elif any(not c.startswith(home) or "/" in c[len(home):] for c in changed) or len(changed) > 1:
            ctx.violation("escape:%s" % mode, case, "a stored name led to %r" % sorted(changed))
        elif bool(changed) != (rc == 0) or not good:
            ctx.violation("status:%s" % mode, case, "exit %d with changes %r (content good: %s)" % (rc, sorted(changed), good))
        elif kind == "model":
            got = ("file", next(iter(changed))) if changed else ("fail", "")
            if got not in scen[job[1:]]:
                ctx.violation("name:%s" % mode, case, "extraction gives %r, the specification allows %r" % (got, scen[job[1:]]))
        elif job[4] is not None and changed != {home + job[4]}:
            ctx.violation("name:odd", case, "an ordinary name must be kept: %r became %r" % (job[4], sorted(changed)))
        if ctx.too_many():
            return
    ctx.sample({"name": "/".join(keys[-1][0]), "mode": keys[-1][1]})
    ctx.count("names", len({j[1] for j in jobs}))
