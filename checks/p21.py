"""P21: damaged and cyclic TIFF directory structures: every directory of the chain once, everything intact, always an end
(spec/MCLinks.tla)."""
import json, random, struct
from lib import common, rawhost

EMPTY = {"ent": {}, "sub": {}}


def build(x, seed):
    """A file with the directory graph of x, randomly placed. Returns (bytes, base, corr, per directory {entry: (tag, dump)})."""
    rng = random.Random(seed)
    e = rng.choice("<>")
    base = rng.choice([0, 0, 0, 12, 30, 1000])
    g = x["g"]
    corr = 0 if any("ones" in d["ent"] for d in g) else rng.choice([0, 0, 0, 4, 1016, -6])
    n = len(g)
    last = [k for k in range(n) if not x["whole"][k]]
    order = [k for k in range(n) if k not in last]
    rng.shuffle(order)
    order += last
    pos = 8 + max(corr, 0) + rng.choice([0, 2, 40])
    ext = {}
    at = {}
    size = {k: 2 + 12 * (len(g[k]["ent"]) + (1 if g[k]["sub"] else 0)) + 4 for k in range(n)}

    def room(key, m):
        nonlocal pos
        pos += pos & 1
        ext[key] = pos
        pos += m + rng.choice([0, 0, 2, 10])
    # external values: before, between or behind the directories
    exts = [(k, j, 12) for k in range(n) for j, t in enumerate(g[k]["ent"]) if t == "far"] + \
           [(k, -1, 4 * len(g[k]["sub"])) for k in range(n) if len(g[k]["sub"]) > 1]
    rng.shuffle(exts)
    before = exts if last else exts[:rng.randrange(len(exts) + 1)]
    for k, j, m in before:
        room((k, j), m)
    for k in order:
        pos += pos & 1
        at[k] = pos
        pos += size[k] + (0 if k in last else rng.choice([0, 0, 6]))
    if not last:
        for k, j, m in exts[len(before):]:
            room((k, j), m)
        pos += rng.choice([0, 1, 16])
    total = pos
    f = bytearray(rng.randrange(256) for _ in range(total)) if rng.random() < 0.5 else bytearray(total)
    struct.pack_into(e + "2sHI", f, 0, b"II" if e == "<" else b"MM", rng.choice([42, 42, 85, 21330, 20306]), at[0] - corr)
    ptr = lambda t: rng.choice([total + 1, total + 8, total * 2 + 50, 0x7fffffff, 0xfffff000]) - corr if t == n + 1 else at[t - 1] - corr
    desc = []
    for k in range(n):
        p = at[k]
        d = g[k]
        tags = sorted(rng.sample([t for t in range(1, 330) if t not in (273, 279)], len(d["ent"])))
        struct.pack_into(e + "H", f, p, len(d["ent"]) + (1 if d["sub"] else 0))
        ent = {}
        for j, t in enumerate(d["ent"]):
            mark = (k + 1) * 1000 + j
            q = p + 2 + 12 * j
            if t == "inline":
                struct.pack_into(e + "HHII", f, q, tags[j], 4, 1, mark)
                ent[j + 1] = (tags[j], {"t": 4, "v": [mark]})
            elif t == "far":
                o = ext[(k, j)]
                struct.pack_into(e + "HHII", f, q, tags[j], 4, 3, o - corr)
                struct.pack_into(e + "3I", f, o, mark, mark + 1, mark + 2)
                ent[j + 1] = (tags[j], {"t": 4, "v": [mark, mark + 1, mark + 2]})
            elif t == "unknown":
                typ = rng.choice([0, 14, 16, 99, 0xffff])
                b = [rng.randrange(256) for _ in range(rng.randrange(1, 5))]
                struct.pack_into(e + "HHI4s", f, q, tags[j], typ, len(b), bytes(b))
                ent[j + 1] = (tags[j], {"t": typ, "v": b, "unknown": True})
            elif t == "beyond":
                typ, cnt, sz = rng.choice([(4, 3, 12), (2, 20, 20), (12, 1, 8), (3, 5, 10), (5, 2, 16)])
                o = rng.choice([total - sz + 1, total, total + 100, 0x80000000, 0xfffff000])
                struct.pack_into(e + "HHII", f, q, tags[j], typ, cnt, o - corr)
            elif t == "huge":
                typ, cnt = rng.choice([(4, 0x3fffffff), (12, 0xffffffff), (1, 0xffffffff), (3, 0x80000000), (5, 0x20000001), (7, 0x7fffffff), (4, 0x40000001)])
                struct.pack_into(e + "HHII", f, q, tags[j], typ, cnt, rng.choice([0, 8, total - 1]))
            elif t == "ones":
                typ, cnt = rng.choice([(4, 3), (12, 1), (7, 64)])
                struct.pack_into(e + "HHII", f, q, tags[j], typ, cnt, 0xffffffff)
        if d["sub"]:
            q = p + 2 + 12 * len(d["ent"])
            vals = [ptr(t) for t in d["sub"]]
            if len(vals) == 1:
                struct.pack_into(e + "HHII", f, q, 330, rng.choice([4, 13]), 1, vals[0])
            else:
                o = ext[(k, -1)]
                struct.pack_into(e + "HHII", f, q, 330, rng.choice([4, 13]), len(vals), o - corr)
                struct.pack_into(e + "%dI" % len(vals), f, o, *vals)
        nx = d["next"]
        struct.pack_into(e + "I", f, p + size[k] - 4, 0 if nx == 0 else ptr(nx))
        desc.append(ent)
    if last:
        k = last[0]
        c = g[k]["cut"]
        end = at[k] + 2 + 12 * c
        if c < len(g[k]["ent"]):
            # in the middle of an entry, before its value
            end += rng.choice([0, 1, 4, 7, 9])
        else:
            end += rng.choice([0, 1, 3])
        f = f[:end]
    prefix = bytes(rng.randrange(256) for _ in range(base))
    return prefix + bytes(f), base, corr, desc, e == "<"


def judge(x, desc, j):
    def ents(k, ids):
        return {str(desc[k - 1][i][0]): desc[k - 1][i][1] for i in ids}
    if "hang" in j or "died" in j or "panic" in j:
        return "no answer: %r" % j
    if x["err"]:
        return None if "err" in j else "a broken chain is read without an error"
    if "err" in j:
        return "not read: %s" % j["err"]
    if len(j["chain"]) != len(x["chain"]):
        return "%d directories instead of %d" % (len(j["chain"]), len(x["chain"]))
    for c, d in zip(x["chain"], j["chain"]):
        got = {t: v for t, v in d["ent"].items() if t != "330"}
        want = ents(c["dir"], c["ent"])
        if got != want:
            return "directory %d has the entries %r instead of %r" % (c["dir"], got, want)
        if c["nsub"] and len(d["ent"].get("330", {"v": []})["v"]) != c["nsub"]:
            return "%d sub directory pointers of directory %d" % (len(d["ent"].get("330", {"v": []})["v"]), c["dir"])
        l = d["sub"].get("330", [])
        if len(l) != len(c["sub"]):
            return "%d sub directories of directory %d instead of %d" % (len(l), c["dir"], len(c["sub"]))
        for s, y in zip(c["sub"], l):
            if {t: v for t, v in y["ent"].items() if t != "330"} != ents(s, x["intact"][s - 1]):
                return "sub directory %d has the entries %r instead of %r" % (s, y["ent"], ents(s, x["intact"][s - 1]))
            if y["sub"]:
                return "sub directories of a sub directory"
    return None


def ask(it, call):
    x, seed = it
    data, base, corr, desc, le = build(x, seed)
    out = []
    for op in ("tiffread", "ifdroot"):
        h = {"op": op, "base": base, "corr": corr, "subtags": [330, 50001] if op == "tiffread" else [330]}
        if op == "ifdroot" and struct.unpack(("<" if le else ">") + "H", data[base + 2:base + 4])[0] != 42:
            continue
        j, _ = call(h, data, 10)
        if not rawhost.failed(j) and j["le"] != le:
            out.append((op, "byte order"))
        r = judge(x, desc, j)
        if r:
            out.append((op, r))
    return out


def run(ctx):
    fams = [("chain", ctx.pick(3, 3)), ("subs", 2), ("entries", 2), ("cut", 2), ("empty", 2)]
    all = []
    for fam, n in fams:
        res = common.run_tlc("MCLinks", 'SPECIFICATION Spec\nCONSTANTS Family="%s" N=%d\nINVARIANTS Once Complete\nPROPERTY Terminates\nCONSTRAINT Emit\n' % (fam, n), ctx=ctx)
        got = {json.dumps(x, sort_keys=True): x for x in res.emitted}
        ctx.need(len(got) > 80, "family " + fam)
        all += [(fam, x) for x in got.values()]
        ctx.count("graphs_" + fam, len(got))
    with rawhost.Pool(12) as P:
        for rep in range(ctx.pick(1, 12)):
            items = [(x, ctx.rng.randrange(1 << 40)) for _, x in all]
            for (fam, x), it, errs in zip(all, items, P.map(ask, items)):
                ctx.traces += 1
                for op, r in errs:
                    data, base, corr, _, _ = build(x, it[1])
                    ctx.violation("%s:%s" % (fam, op), dict(x, seed=it[1], file=data.hex(), base=base, corr=corr), "directories %s: %s" % (json.dumps(x["g"]), r))
                if ctx.too_many():
                    return
    ctx.sample(all[len(all) // 2][1])
