"""P25: bit streams and packed rasters: every bit in its place (spec/Packing.tla, MCPacking.tla, Pump.tla, MCPump.tla, PumpTrace.tla)."""
import json, struct, zlib
import numpy as np
from lib import common, rawhost

STRIPS = ["p%d" % i for i in range(1, 16)] + ["p16l", "p16b"]


def image(m, at, rng):
    """(stored bytes, samples) of a random image; what no sample uses is random, too."""
    n = len(at) // m["bits"]
    v = rng.integers(0, 1 << m["bits"], n, dtype=np.uint32)
    k = rng.integers(0, 8)
    if k == 0:
        v[:] = (1 << m["bits"]) - 1
    elif k == 1:
        v[:] = 0
        v[rng.integers(0, n)] = 1 << int(rng.integers(0, m["bits"]))
    bits = rng.integers(0, 2, 8 * m["need"], dtype=np.uint8)
    bits[at] = ((v[:, None] >> np.arange(m["bits"] - 1, -1, -1)[None, :]) & 1).astype(np.uint8).ravel()
    return np.packbits(bits).tobytes(), v


def store(it, call):
    m, at, seed, n = it
    rng = np.random.default_rng(seed)
    for i in range(n):
        data, v = image(m, at, rng)
        l, w, h = m["l"], m["w"], m["h"]
        if l in STRIPS:
            head = {"op": "packed", "bps": int(l[1:].rstrip("lb")), "endian": "big" if l.endswith("b") or rng.integers(2) and l != "p16l" else "little", "w": w, "h": h}
            s = int(rng.integers(0, h + 2))
            if s:
                head["strip"] = s
            tail = bytes(rng.integers(0, 256, int(rng.choice([0, 0, 1, 5])), dtype=np.uint8))
            if i == n - 1:
                j, _ = call(head, data[:-1])
                if "err" not in j:
                    return "short", "%s %dx%d: %d bytes instead of %d are no error: %r" % (l, w, h, len(data) - 1, len(data), j), data[:-1]
            j, out = call(head, data + tail)
        else:
            head = {"op": "unwrapped"}
            data = struct.pack("<HHH", int(l), w, h) + data
            j, out = call(head, data)
        if rawhost.failed(j):
            return "fail", "%s %dx%d: %r" % (l, w, h, j), data
        got = np.frombuffer(out, dtype="<u2")
        if len(got) != len(v) or (got != v).any():
            k = int(np.argmax(got[:len(v)] != v[:len(got)]))
            return "sample", "layout %s %dx%d: sample %d,%d is %d instead of %d" % (l, w, h, k // w, k % w, got[k] if k < len(got) else -1, v[k]), data
    return None


def bits32(v, n):
    return [v >> (n - 1 - i) & 1 for i in range(n)]


def num(b):
    return int("".join(map(str, b)) or "0", 2)


def replay(it, call):
    j, _ = call({"op": "pump", "kind": it["kind"], "ops": it["ops"]}, bytes(it["data"]))
    if rawhost.failed(j):
        return "%r" % j
    for k, (o, w) in enumerate(zip(it["ops"], it["outs"])):
        g = j["out"][k]
        if o[0] == "c":
            continue
        want = w["z"] if o[0] == "z" else num(w["v"])
        if o[0] == "s" and want >> 31:
            want -= 1 << 32
        if g != want:
            return "operation %d (%s %d) returns %r instead of %r" % (k + 1, o[0], o[1], g, want)
    return None


def record(it, call):
    """Runs a schedule, cut down until it stays within the data (the library stops at the end of the data)."""
    kind, data, ops = it
    j, _ = call({"op": "pump", "kind": kind, "ops": ops}, bytes(data))
    if "hang" in j or "died" in j:
        return {"bad": "%r" % j, "kind": kind, "data": list(data), "ops": ops}
    if rawhost.failed(j):
        # find out how many operations work
        lo, hi, best = 0, len(ops), []
        while lo < hi:
            mid = (lo + hi + 1) // 2
            j, _ = call({"op": "pump", "kind": kind, "ops": ops[:mid]}, bytes(data))
            if rawhost.failed(j):
                hi = mid - 1
            else:
                lo, best = mid, j["out"]
        out = best
    else:
        out = j["out"]
    outs = []
    for o, g in zip(ops, out):
        n = o[1]
        if o[0] == "c":
            outs.append([])
        elif o[0] == "z":
            outs.append([g])
        elif o[0] == "s":
            outs.append(bits32(g & 0xffffffff, 32) if n else [])
        else:
            outs.append(bits32(g & 0xffffffff, n) if (g & 0xffffffff) >> n == 0 else [2])
    return {"kind": kind, "data": list(data), "ops": ops, "outs": outs}


def schedule(rng):
    kind = rng.choice(["lsb", "msb", "msb32", "jpeg"])
    n = rng.choice([0, 1, 3, 4, 5, 7, 8, 11, 12, 16, 30, 64])
    style = rng.random()
    data = bytes(rng.choice([0, 0, 0, 1, 255]) if style < .3 else rng.choice([0, 255, rng.randrange(256)]) if style < .6 else rng.randrange(256) for _ in range(n))
    ops = []
    for _ in range(rng.choice([3, 10, 40])):
        k = rng.random()
        m = rng.choice([1, 2, 7, 8, 9, 12, 14, 16, 24, 31, 32, rng.randrange(33)])
        if k < .5:
            ops.append(["g", m])
        elif k < .6:
            ops.append(["i", m])
        elif k < .7:
            ops.append(["s", m])
        elif k < .8:
            ops.append(["p", m])
        elif k < .95 or kind == "lsb" or kind == "jpeg":
            ops += [["p", m], ["c", rng.randrange(m + 1)]]
        else:
            ops.append(["z", 0])
    return kind, data, ops


def run(ctx):
    exe = rawhost.Pool(8)
    widths = ctx.pick("1,2,3,4,5,6,7,8,10,12,16,20", "1,2,3,4,5,6,7,8,9,10,11,12,14,16,20,24,30,32,40,64")
    lay = ", ".join('"%s"' % x for x in [str(i) for i in range(1, 21)] + STRIPS)
    r = common.run_tlc("MCPacking", "SPECIFICATION Spec\nCONSTANTS Widths = {%s}\n Hmax = %d\n Layouts = {%s}\nINVARIANTS Injective Within Tight\n" % (widths, ctx.pick(4, 7), lay), ctx=ctx)
    rows = {}
    for x in r.emitted:
        rows.setdefault((x["l"], x["w"], x["h"]), {})[x["row"]] = x
    jobs = []
    for key, d in sorted(rows.items()):
        m = d[0]
        if len(d) != m["h"]:
            raise common.ToolError("rows missing for %r" % (key,))
        at = np.array(sum((d[i]["at"] for i in range(m["h"])), []), dtype=np.int64)
        jobs.append(({k: m[k] for k in ("l", "w", "h", "bits", "need")}, at, zlib.crc32(repr((ctx.seed,) + key).encode()), ctx.pick(6, 25)))
    ctx.need(len({j[0]["l"] for j in jobs}) == 37 and len(jobs) > 1000, "layouts")
    for it, bad in zip(jobs, exe.map(store, jobs)):
        ctx.traces += it[3]
        if bad:
            ctx.violation("%s:%s" % (bad[0], it[0]["l"]), {"layout": it[0], "data": bad[2].hex()}, bad[1])
            if ctx.too_many():
                return
    ctx.count("packed_images", sum(j[3] for j in jobs))
    r = common.run_tlc("MCPump", "SPECIFICATION Spec\nCONSTANTS Depth = 3\n Sizes = {%s}\nINVARIANTS Prefix Peeks Stuffed\n" % ctx.pick("0, 7, 13, 32", "0, 1, 7, 8, 13, 31, 32"), ctx=ctx)
    jobs = [json.loads(x) for x in {json.dumps(x, sort_keys=True) for x in r.emitted}]
    jobs.sort(key=lambda x: json.dumps(x))
    ctx.need(len(jobs) > 10000, "schedules")
    for it, bad in zip(jobs, exe.map(replay, jobs)):
        ctx.traces += 1
        if bad:
            ctx.violation("pump:%s:%s" % (it["kind"], it["ops"][-1][0]), it, "%s bit reader on %s, operations %r: %s" % (it["kind"], bytes(it["data"]).hex(), it["ops"], bad))
            if ctx.too_many():
                return
    ctx.count("pump_schedules", len(jobs))
    jobs = [schedule(ctx.rng) for _ in range(ctx.pick(3000, 40000))]
    recs = exe.map(record, jobs)
    for x in recs:
        if "bad" in x:
            ctx.violation("pump:answer", x, "%s bit reader on %s: %s" % (x["kind"], bytes(x["data"]).hex(), x["bad"]))
    recs = [x for x in recs if "bad" not in x]
    for i in range(0, len(recs), 5000):
        part = recs[i:i + 5000]
        for x in common.validate("PumpTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", part, ctx):
            rec = part[x["reject"] - 1]
            k = x["why"]
            ctx.violation("trace:%s:%s" % (rec["kind"], rec["ops"][k - 1][0]), rec, "%s bit reader on %s: operation %d of %r" % (rec["kind"], bytes(rec["data"]).hex(), k, rec["ops"]))
            if ctx.too_many():
                return
    ctx.count("random_schedules", len(recs))
    ctx.sample({"schedule": recs[0]})
    ctx.assumptions.append("widths for which a camera layout is not defined (e.g. odd widths of 12 bit pairs) are not used; the dithered 8 bit table layout is not part of this model")
