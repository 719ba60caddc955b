"""P20: a directory tree survives the TIFF structure: what is written denotes it, what denotes it is read as it
(spec/Tiff.tla, MCTiff.tla, TiffTrace.tla)."""
import json, struct
from lib import common, rawhost, tiff

FMT = {1: "B", 3: "H", 4: "I", 5: "I", 6: "b", 7: "B", 8: "h", 9: "i", 10: "i", 11: "I", 12: "Q"}


def values(t, b):
    """Values of canonical bytes, as the harness reports them."""
    b = bytes(b)
    if t == 2:
        return [b.split(b"\0")[0].decode()]
    n = len(b) // struct.calcsize(FMT[t])
    v = list(struct.unpack(">%d%s" % (n, FMT[t]), b))
    if t in (5, 10):
        return [[v[i], v[i + 1]] for i in range(0, n, 2)]
    return [str(x) for x in v] if t == 12 else v


def entry(e):
    return {"t": e["typ"], "v": values(e["typ"], e["b"])}


def differ(tree, k, d, subtags, data=None):
    """Differences between directory k of the tree and a directory the reader reports."""
    m = tree["dirs"][k - 1]
    want = {str(e["tag"]): entry(e) for e in m["ent"]}
    got = d["ent"]
    extra = set(got) - set(want) - {str(s["tag"]) for s in m["sub"]} - ({"273", "279"} if m["data"] else set())
    if extra:
        return "tags %s out of nowhere" % sorted(extra)
    for t in want:
        if t not in got:
            return "tag %s missing" % t
        if got[t] != want[t]:
            return "tag %s is %r instead of %r" % (t, got[t], want[t])
    for s in m["sub"]:
        t = str(s["tag"])
        if t not in got or got[t]["t"] != 4 or len(got[t]["v"]) != len(s["dirs"]):
            return "sub directory tag %s is %r" % (t, got.get(t))
        if s["tag"] in subtags:
            l = d["sub"].get(t)
            if l is None or len(l) != len(s["dirs"]):
                return "%d sub directories for tag %s instead of %d" % (len(l or []), t, len(s["dirs"]))
            for x, y in zip(s["dirs"], l):
                r = differ(tree, x, y, subtags, data)
                if r:
                    return "in the sub directory of %s: %s" % (t, r)
    if m["data"]:
        if "273" not in got or "279" not in got or got["279"]["v"] != [len(b) for b in m["data"]]:
            return "data blocks: %r" % got.get("279")
        if data is not None:
            for o, b in zip(got["273"]["v"], m["data"]):
                if data[o:o + len(b)] != bytes(b):
                    return "data block at %d" % o
    return None


KNOWN = {330, 34665, 34853}


def read(it, call):
    x, prefix, custom = it
    data = bytes(prefix) + bytes(x["file"])
    h = {"op": "tiffread", "base": len(prefix), "corr": x["corr"], "subtags": [50000] if custom else []}
    if custom == "root":
        h = dict(h, op="ifdroot", subtags=[330, 34665, 34853])
    j, _ = call(h, data)
    if rawhost.failed(j):
        return "not read: %r" % j
    if j["le"] != x["le"]:
        return "byte order"
    if len(j["chain"]) != len(x["tree"]["roots"]):
        return "%d directories in the chain instead of %d" % (len(j["chain"]), len(x["tree"]["roots"]))
    for k, d in zip(x["tree"]["roots"], j["chain"]):
        r = differ(x["tree"], k, d, KNOWN | ({50000} if custom is True else set()))
        if r:
            return r
    return None


def spec_of(tree, k):
    d = tree["dirs"][k - 1]
    out = {"ent": []}
    for e in d["ent"]:
        v = values(e["typ"], e["b"])
        if e["typ"] == 2:
            v = v[0]
        out["ent"].append({"tag": e["tag"], "t": e["typ"], "v": v, "bits": True})
    if d["sub"]:
        out["sub"] = {str(s["tag"]): [spec_of(tree, x) for x in s["dirs"]] for s in d["sub"]}
    if d["data"]:
        out["data"] = d["data"]
    return out


def random_tree(rng):
    """Larger trees than TLC enumerates, in the same form."""
    def ents(n, lo=1):
        tags = sorted(rng.sample([t for t in range(lo, 65535) if t not in (330, 34665, 34853, 34675, 273, 279, 50000)], n))
        out = []
        for tag in tags:
            t = rng.randint(1, 12)
            c = rng.choice([1, 1, 2, 3, 4, 5, 9, 50, 300])
            n = tiff.SIZES[t] * c
            b = [rng.choice([0, 255, 128, 127, 1, rng.randrange(256)]) for _ in range(n)]
            if t == 2:
                b = [rng.randrange(32, 127) for _ in range(n - 1)] + [0]
            out.append(dict(tag=tag, typ=t, cnt=c, b=b))
        return out
    dirs = [dict(ent=ents(rng.choice([1, 2, 10, 60])), sub=[], data=[])]
    for tag in rng.sample([330, 34665, 34853, 50000], rng.choice([0, 1, 2, 3])):
        ids = []
        for _ in range(rng.choice([1, 1, 2, 5]) if tag == 330 else 1):
            dirs.append(dict(ent=ents(rng.choice([1, 3, 20])), sub=[], data=[[rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 5, 31]))] for _ in range(rng.choice([0, 1, 3]))]))
            ids.append(len(dirs))
        dirs[0]["sub"].append(dict(tag=tag, dirs=ids))
    return dict(dirs=dirs, roots=[1])


def run(ctx):
    files = {}
    for fam, corr, gaps in [("one", "{0,4,1016}", ctx.pick("{0}", "{0,2,6}")), ("two", "{0}", ctx.pick("{0}", "{0,2}")), ("subs", ctx.pick("{0,1016}", "{0,4,1016}"), "{0}"), ("blobs", "{0}", "{0}"), ("chains", "{0,4}", "{0}")]:
        res = common.run_tlc("MCTiff", 'SPECIFICATION Spec\nCONSTANTS Family="%s" Corrs=%s Gaps=%s\nINVARIANTS Meaning Laid\nCONSTRAINT Emit\n' % (fam, corr, gaps), ctx=ctx)
        got = {json.dumps(x, sort_keys=True): x for x in res.emitted}
        ctx.need(len(got) > 300, "family " + fam)
        files[fam] = list(got.values())
    trees = {}
    for l in files.values():
        for x in l:
            if len(x["tree"]["roots"]) == 1:
                trees.setdefault(json.dumps(x["tree"], sort_keys=True), x["tree"])
    with rawhost.Pool(12) as P:
        # every file of the model, at the start of a stream and inside of one
        for fam, l in files.items():
            items = []
            for x in l:
                items.append((x, b"", False))
                items.append((x, bytes(ctx.rng.randrange(256) for _ in range(ctx.rng.choice([1, 2, 12, 30, 1000]))), ctx.rng.choice([False, True, "root"])))
            for it, err in zip(items, P.map(read, items)):
                ctx.traces += 1
                if err:
                    x = it[0]
                    typ = x["tree"]["dirs"][0]["ent"][0]["typ"]
                    ctx.violation("read:%s:%d" % (fam, typ), dict(x, prefix=it[1].hex(), custom=it[2]), "a %s endian file (offset correction %d, at %d) read: %s; %s" % ("little" if x["le"] else "big", x["corr"], len(it[1]), err, bytes(x["file"]).hex()[:200]))
                    if ctx.too_many():
                        return
        # trees through the real writer
        todo = [t for t in trees.values()]
        big = [random_tree(ctx.rng) for _ in range(ctx.pick(250, 6000))]

        def write(tree, call):
            return call(dict(spec_of(tree, 1), op="tiffwrite"), b"")
        recs, of = [], []
        for k, (tree, (j, data)) in enumerate(zip(todo + big, P.map(write, todo + big))):
            ctx.traces += 1
            if rawhost.failed(j):
                ctx.violation("write", tree, "a directory of types %s is not written: %r" % (sorted({(e["typ"], e["cnt"]) for d in tree["dirs"] for e in d["ent"]})[:6], j))
            else:
                recs.append(dict(file=list(data), dirs=tree["dirs"]))
                of.append(tree)
            if ctx.too_many():
                return
        small = [i for i in range(len(recs)) if len(recs[i]["file"]) < ctx.pick(2500, 6000)]
        rej = common.validate("TiffTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", [recs[i] for i in small], ctx)
        for x in rej:
            t = of[small[x["reject"] - 1]]
            ctx.violation("write:" + x["why"], dict(tree=t, file=bytes(recs[small[x["reject"] - 1]]["file"]).hex()), "written for %s: %s (%s)" % (json.dumps([dict(tag=e["tag"], typ=e["typ"], cnt=e["cnt"], b=e["b"][:8]) for e in t["dirs"][0]["ent"][:3]]), x["why"], bytes(recs[small[x["reject"] - 1]]["file"]).hex()[:200]))
            if ctx.too_many():
                return
        # and back through the real reader, all sizes
        items = [(dict(file=r["file"], tree=t, le=True, corr=0), b"", True) for r, t in zip(recs, of)]
        for it, err in zip(items, P.map(read, items)):
            ctx.traces += 1
            if err:
                ctx.violation("roundtrip", dict(tree=it[0]["tree"], file=bytes(it[0]["file"]).hex()), "written and read again: %s" % err)
                if ctx.too_many():
                    return
        # independent files of random trees, both byte orders
        def indep(it, call):
            tree, seed = it
            import random
            rng = random.Random(seed)
            e = rng.choice("<>")
            def mk(k):
                d = tree["dirs"][k - 1]
                i = tiff.Ifd({x["tag"]: (x["typ"], tiff.Raw(x["b"])) for x in d["ent"]})
                i.subs = {s["tag"]: [mk(y) for y in s["dirs"]] for s in d["sub"]}
                if d["data"]:
                    i.strips = [bytes(b) for b in d["data"]]
                return i
            data = tiff.build([mk(1)], e)
            return read((dict(file=list(data), tree=tree, le=e == "<", corr=0), bytes(rng.choice([0, 0, 7, 64])), True), call)
        its = [(t, ctx.rng.randrange(1 << 40)) for t in big]
        for (t, s), err in zip(its, P.map(indep, its)):
            ctx.traces += 1
            if err:
                ctx.violation("read:random", dict(tree=t, seed=s), "a file of %d directories read: %s" % (len(t["dirs"]), err))
                if ctx.too_many():
                    return
        # offsets beyond 32 bits are refused, not wrapped
        for at in (0xfffffff0, 0xfffffffc, 0x100000000, 0x100000010, 0x1ffffffff):
            j, _ = P.call({"op": "tiffbig", "at": at}, b"")
            ctx.traces += 1
            if "err" not in j and not (at < 0xfffffffd and j.get("offset") == at):
                ctx.violation("offset", {"at": at}, "a data block at %#x of the file is recorded at %r" % (at, j))
    ctx.sample(files["subs"][0])
    ctx.count("files_read", sum(map(len, files.values())))
    ctx.count("trees_written", len(recs))

