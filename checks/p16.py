"""P16: colour pattern, black and white level, areas, calibration and orientation survive conversion (spec/Geometry.tla, MCGeometry.tla, GeometryTrace.tla)."""
import os, random, subprocess
from fractions import Fraction
import numpy as np
from lib import common, dng, rawhost, tiff
from lib.tiff import SHORT, LONG, BYTE, ASCII, RATIONAL, SRATIONAL, UNDEF, FLOAT, DOUBLE

PHOT = {"cfa": 32803, "linear": 34892, "mono": 1}
NOCROP = {"has": False, "x": 0, "y": 0, "w": 0, "h": 0}
# tags describing the profile, copied from and to IFD 0: (tag, type, number of values for 3 colours)
ROOT = [(50721, SRATIONAL, 9), (50722, SRATIONAL, 9), (52531, SRATIONAL, 9), (50723, SRATIONAL, 9), (50724, SRATIONAL, 9), (52530, SRATIONAL, 9), (50964, SRATIONAL, 9), (50965, SRATIONAL, 9),
        (52532, SRATIONAL, 9), (50727, RATIONAL, 3), (50730, SRATIONAL, 1), (50731, RATIONAL, 1), (50732, RATIONAL, 1), (50734, RATIONAL, 1), (50735, ASCII, 7), (50931, ASCII, 9), (50932, ASCII, 9),
        (50934, ASCII, 6), (50936, ASCII, 8), (50942, ASCII, 5), (50941, LONG, 1), (50940, FLOAT, 6), (50937, LONG, 3), (50938, FLOAT, 9), (50939, FLOAT, 9), (51109, SRATIONAL, 1)]
RAW = [(50733, LONG, 1), (50737, RATIONAL, 1), (50738, RATIONAL, 1), (50935, RATIONAL, 1), (51041, DOUBLE, 2), (51008, UNDEF, 4), (51009, UNDEF, 4), (51022, UNDEF, 4)]


def value(rng, typ, n):
    if typ == ASCII:
        return "".join(rng.choice("abcXYZ 019") for _ in range(n - 1)) + "z"
    if typ == UNDEF:
        return bytes(n)   # an empty opcode list
    if typ in (FLOAT, DOUBLE):
        return [rng.choice([0.0, 0.5, 0.25, 1.0, 1.5]) for _ in range(n)]
    if typ == LONG:
        return [rng.randint(1, 3) for _ in range(n)]
    return [((rng.randint(-30000, 30000) if typ == SRATIONAL else rng.randint(1, 30000)), rng.choice([1, 10, 10000, 16384])) for _ in range(n)]


class Ids:
    def __init__(self):
        self.m = {}

    def __call__(self, x):
        return self.m.setdefault(repr(x), len(self.m))


def ent(i, tag):
    e = i.ent.get(tag)
    return None if e is None else (e.typ, [tuple(x) if isinstance(x, (list, tuple)) else x for x in e.v] if not isinstance(e.v, (bytes, str)) else e.v)


def num(x):
    return Fraction(x[0], x[1]) if isinstance(x, (tuple, list)) else Fraction(x)


def milli(x):
    """A black level in thousandths, -1 when it is no multiple of a thousandth."""
    f = num(x) * 1000
    return int(f) if f.denominator == 1 and f < 2 ** 31 else -1


def tags(i):
    """The geometry of a written raw IFD, in the terms of Geometry.tla."""
    w, h, cpp = i.one(256), i.one(257), i.one(277, 1)
    act = list(i.get(50829)) if 50829 in i.ent else [0, 0, h, w]
    crop = dict(NOCROP)
    if 50719 in i.ent or 50720 in i.ent:
        o, s = [num(x) for x in i.get(50719)], [num(x) for x in i.get(50720)]
        crop = {"has": True, "x": int(o[0]), "y": int(o[1]), "w": int(s[0]), "h": int(s[1])}
    bd = list(i.get(50713)) if 50713 in i.ent else [1, 1]
    bl = [milli(x) for x in i.get(50714)] if 50714 in i.ent else [0] * (bd[0] * bd[1] * cpp)
    if len(bl) != bd[0] * bd[1] * cpp:
        raise tiff.Bad("BlackLevel has %d values for %r x %d" % (len(bl), bd, cpp))
    cfa = i.one(262) == 32803
    cd = list(i.get(33421)) if cfa else [1, 1]
    pat = list(i.get(33422)) if cfa else [0]
    if len(pat) != cd[0] * cd[1]:
        raise tiff.Bad("CFAPattern has %d values for %r" % (len(pat), cd))
    return dict(w=w, h=h, cpp=cpp, act=act, crop=crop, ph=cd[0], pw=cd[1], pat=pat, bh=bd[0], bw=bd[1], black=bl, cfa=cfa)


def image(j):
    p = j["photometric"]
    cfa = p["kind"] == "cfa"
    b = j["black"]
    return dict(w=j["w"], h=j["h"], hasactive=j["active"] is not None, active=j["active"] or [], hascrop=j["crop"] is not None, crop=j["crop"] or [], ph=p["h"] if cfa else 1, pw=p["w"] if cfa else 1,
                pat=p["pattern"] if cfa else [0], bh=b["h"], bw=b["w"], cpp=b["cpp"], black=[milli(x) for x in b["levels"]])


def colours(rng, n):
    """Colours of a pattern with n cells: all of red, green, blue (or cyan, magenta, yellow and green) occur."""
    k = [0, 1, 2] if n != 4 or rng.random() < .7 else rng.choice([[0, 1, 2, 3], [3, 4, 5, 1], [3, 4, 5]])
    while True:
        p = [rng.choice(k) for _ in range(n)]
        if len(set(p)) == len(k):
            return p, k


def run(ctx):
    q = ctx.quick
    cases = {}
    cfg = "SPECIFICATION Spec\nCONSTANTS W=%d H=%d Offs=%s Pats=%s Blacks=%s Cpps=%s\nINVARIANTS SiteColours SiteBlacks Stable CropInside\nCONSTRAINT Emit\n"
    fams = [(16, 14, "{0,1,3}", '{"p22","p66"}', '{"p11","p22","p12","p32","p66","p44"}', "{1}"), (16, 14, "{0,1,2,5}", '{"p11"}', '{"p11","p22","p21","p13"}', "{1,2,3}")]
    if not q:
        fams += [(17, 13, "{0,1,2,3,4,5,6}", '{"p22","p66","p82","p44","p32","p13"}', '{"p11","p44","p13","p82"}', "{1}"), (15, 17, "{0,1,2,4}", '{"p11"}', '{"p12","p32","p66","p44"}', "{1,3,4}")]
    for f in fams:
        for x in common.run_tlc("MCGeometry", cfg % f, ctx=ctx).emitted:
            cases[repr(x)] = x
    if q:
        for x in common.run_tlc("MCGeometry", cfg % (16, 14, "{0,1}", '{"p82","p44"}', '{"p22"}', "{1}"), ctx=ctx).emitted:
            cases[repr(x)] = x
    cases = list(cases.values())
    ctx.need(len(cases) >= 3000, "geometries")
    ctx.rng.shuffle(cases)
    work = cases if not q else cases[:1700]
    ids = Ids()

    def source(x, seed):
        """Materialise a geometry of the model with concrete colours, levels and calibration."""
        rng = random.Random(seed)
        t = dict(x["t"])
        n = t["ph"] * t["pw"]
        kind = "cfa" if n >= 3 else ("linear" if t["cpp"] > 1 else rng.choice(["mono", "mono", "linear"]))
        pl = [0, 1, 2]
        if kind == "cfa":
            t["pat"], pl = colours(rng, n)
        else:
            t["ph"] = t["pw"] = 1
            t["pat"] = [0]
        t["cfa"] = kind == "cfa"
        d = rng.choice([0, 0, 1, 2, 4, 5, 10])   # denominator, 0: integers
        lv = rng.sample(range(1, 4000), len(t["black"]))
        if rng.random() < .2:
            lv = [v * 17 for v in lv]
        t["black"] = [v * 1000 if d < 1 else v * 1000 // d for v in lv]
        ncol = len(pl) if kind == "cfa" else t["cpp"]
        return rng, t, kind, pl, (lv, d), ncol

    def one(it, call):
        x, seed = it
        rng, t, kind, pl, (lv, d), ncol = source(x, seed)
        w, h, cpp = t["w"], t["h"], t["cpp"]
        bps = rng.choice([8, 12, 14, 16, 16])
        nrng = np.random.default_rng(seed)
        px = nrng.integers(0, 1 << bps, (h, w) if cpp == 1 else (h, w, cpp))
        white = rng.choice([None, [(1 << bps) - 1] * cpp, [rng.randint(1, (1 << bps) - 1) for _ in range(cpp)], [rng.randint(1, (1 << bps) - 1)], [70000 + i for i in range(cpp)]])
        neutral = rng.choice([None] + 5 * [[(rng.randint(1, 3000000), 1000000) for _ in range(ncol)]])
        if neutral is not None and rng.random() < .2:
            neutral = [(rng.randint(1, 9), rng.randint(1, 9)) for _ in range(ncol)]
        if ncol not in (1, 3, 4) and kind == "cfa":
            neutral = None
        ori = rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
        rootx = {}
        for tag, typ, n in ROOT:
            if rng.random() < .35:
                rootx[tag] = (typ, value(rng, typ, n))
        for tag in (50778, 50779, 52529):
            if rng.random() < .6:
                rootx[tag] = (SHORT, rng.choice([17, 20, 21, 22, 23, 1, 2, 255]))
        rawx = {}
        for tag, typ, n in RAW:
            if rng.random() < .25:
                rawx[tag] = (typ, value(rng, typ, n))
        if 50937 in rootx:
            rootx.pop(50938, None), rootx.pop(50939, None), rootx.pop(50937)
        deltas = rng.random() < .25
        if deltas:
            rawx[50715] = (SRATIONAL, [(rng.randint(-9, 9), 4) for _ in range(t["act"][3] - t["act"][1])])
            rawx[50716] = (SRATIONAL, [(rng.randint(-9, 9), 4) for _ in range(t["act"][2] - t["act"][0])])
        if rng.random() < .3:
            rawx[50718] = (RATIONAL, rng.choice([[(1, 1), (1, 1)], [(4, 3), (1, 1)], [(1, 1), (2, 1)]]))
            rawx[50780] = (RATIONAL, [rng.choice([(1, 1), (3, 2)])])
        if t["act"][0] and rng.random() < .5:
            rawx[50830] = (LONG, [0, 0, t["act"][0], w] + ([0, 0, h, t["act"][1]] if t["act"][1] and rng.random() < .5 else []))
        if kind == "cfa":
            rawx[33421] = (SHORT, [t["ph"], t["pw"]])
            rawx[33422] = (BYTE, bytes(t["pat"]))
            rawx[50710] = (BYTE, bytes(pl))
        black = [(v, d) for v in lv] if d else list(lv)
        c = t["crop"]
        full = t["act"] == [0, 0, h, w]
        noact = full and rng.random() < .5
        if rng.random() < .3 and not d and max(lv) < 65536:
            rawx[50714] = (SHORT, black)
        if c["has"] and rng.random() < .3:
            rawx[50719], rawx[50720] = (RATIONAL, [(c["x"] * 2, 2), (c["y"], 1)]), (RATIONAL, [(c["w"], 1), (c["h"] * 3, 3)])
        data = dng.make(px, e=rng.choice("<>"), bps=bps, photometric=PHOT[kind], layout=rng.choice([("strips", 0), ("strips", 5), ("tiles", (16, 16))]), active=None if noact else t["act"],
                        crop=[c["x"], c["y"], c["w"], c["h"]] if c["has"] else None, black=black, blackrep=[t["bh"], t["bw"]] if (t["bh"], t["bw"]) != (1, 1) or rng.random() < .5 else None,
                        white=white, neutral=neutral, matrix=dng.MATRIX if 50721 not in rootx and rng.random() < .7 else None, orientation=ori, sub=rng.random() < .6, rootextra=rootx, extra=rawx)
        opt = dict(compression=rng.choice(["none", "lossless"]), predictor=rng.randint(1, 7), crop=x["mode"], thumbnail=rng.random() < .5, preview=rng.random() < .1, embedded=rng.random() < .1)
        j, _ = call({"op": "decode"}, data, 60)
        k, out = call(dict(op="convert", **opt), data, 120)
        case = dict(t=t, opt=opt, kind=kind, seed=seed, model=x, src=data.hex())
        if kind == "cfa" and (t["ph"], t["pw"]) not in ((2, 2), (6, 6)) and rawhost.failed(j) and rawhost.failed(k):
            return case, None, None   # a sensor type that is not supported at all: rejected as a whole
        if rawhost.failed(j) or rawhost.failed(k):
            return case, "failed: %r %r" % (j, k), None
        l, _ = call({"op": "decode"}, bytes(out), 60)
        if rawhost.failed(l):
            return case, "the own decoder fails: %r" % l, None
        try:
            sf, of = tiff.File(data), tiff.File(bytes(out))
            si, oi = dng.find_raw(sf), dng.find_raw(of)
            sr, orr = sf.roots[0], of.roots[0]
            ot = tags(oi)
            if oi.one(262) != PHOT[kind]:
                return case, "photometric interpretation %d" % oi.one(262), None
            vals, names = [], []

            def val(name, a, b, tol=0):
                vals.append([int(a), int(b), int(tol)])
                names.append(name)

            def same(name, a, b):
                val(name, ids(a), ids(b))
            wl = white or [(1 << bps) - 1] * cpp
            wl = wl * cpp if len(wl) == 1 else wl
            same("white level", wl, list(oi.get(50717)))
            same("white level read", wl, j["white"])
            if neutral is not None and (kind == "cfa" or cpp > 1):
                nt = [num(v) for v in orr.get(50728)] if 50728 in orr.ent else []
                val("neutral values", ncol if 0 not in [round(num(v) * 100000) for v in neutral] else len(nt), len(nt))
                for a, b in zip(neutral, nt):
                    val("neutral", round(num(a) * 100000), round(b * 100000), 1 + num(a))
            elif neutral is None:
                val("neutral made up", 0, len(orr.get(50728)) if 50728 in orr.ent and (kind == "cfa" or cpp > 1) else 0)
            same("orientation", ori, orr.one(274, 1))
            for tag in [r[0] for r in ROOT] + [50778, 50779, 52529]:
                if tag in sr.ent:
                    same("tag %d" % tag, ent(sr, tag), ent(orr, tag))
                elif 50721 in sr.ent and not (tag in (50778, 50779) and tag - 57 in sr.ent):   # a matrix without illuminant is read as D65
                    same("tag %d added" % tag, None, ent(orr, tag))
            for tag in [r[0] for r in RAW] + [50830] + ([50715, 50716] if x["mode"] != "none" else []):
                if tag in si.ent:
                    same("tag %d" % tag, ent(si, tag), ent(oi, tag))
            for tag, df in ((50718, (5, [(1, 1), (1, 1)])), (50780, (5, [(1, 1)]))):
                same("tag %d" % tag, ent(si, tag) or df, ent(oi, tag) or df)
            if kind == "cfa":
                same("CFAPlaneColor", list(pl), list(oi.get(50710)) if 50710 in oi.ent else [0, 1, 2])
                same("CFALayout", 1, oi.one(50711, 1))
            same("make and model", (j["make"], j["model"], j["orientation"], j["white"]), (l["make"], l["model"], l["orientation"], l["white"]))
            rec = dict(src=t, mode=x["mode"], img=image(j), out=ot, img2=image(l), vals=vals)
            return case, None, (rec, names)
        except (tiff.Bad, IndexError, ValueError, KeyError, TypeError) as e:
            return case, "malformed output: %r" % e, None

    def written(it, call):
        """The writer on an image described in sensor coordinates."""
        x, seed = it
        rng, t, kind, pl, (lv, d), ncol = source(x, seed)
        if kind == "cfa" and max(pl) > 2:
            rng2 = random.Random(seed + 1)
            while True:
                t["pat"], pl = colours(rng2, t["ph"] * t["pw"])
                if max(pl) < 3:
                    break
            ncol = len(pl)
        w, h, cpp, a = t["w"], t["h"], t["cpp"], t["act"]
        # the pattern counted from the sensor's corner
        cell = lambda p, n, m, y, x_: p[((y - a[0]) % n) * m + (x_ - a[1]) % m]
        pat = [cell(t["pat"], t["ph"], t["pw"], y, x_) for y in range(t["ph"]) for x_ in range(t["pw"])]
        bl = [((lv[(((y - a[0]) % t["bh"]) * t["bw"] + (x_ - a[1]) % t["bw"]) * cpp + s]), d or 1) for y in range(t["bh"]) for x_ in range(t["bw"]) for s in range(cpp)]
        c = t["crop"]
        img = dict(w=w, h=h, hasactive=True, active=[a[1], a[0], a[3] - a[1], a[2] - a[0]], hascrop=c["has"], crop=[a[1] + c["x"], a[0] + c["y"], c["w"], c["h"]] if c["has"] else [],
                   ph=t["ph"], pw=t["pw"], pat=pat, bh=t["bh"], bw=t["bw"], cpp=cpp, black=[milli(v) for v in bl])
        ori = rng.randint(1, 8)
        white = [rng.choice([255, 16383, 65535, 70000]) for _ in range(cpp)]
        ms = sorted(rng.sample([17, 20, 21, 22, 23, 1], rng.randint(1, 4)))
        mats = [[m, [rng.randint(-25000, 25000) / 10000 for _ in range(9)]] for m in ms]
        wb = [rng.choice([rng.uniform(.3, 4), 1, 2]) for _ in range(max(3, ncol))]
        head = {"op": "writedng", "w": w, "h": h, "cpp": cpp, "bps": 16, "make": "Acme", "model": "X", "cfa": "".join("RGB"[v] for v in pat) if kind == "cfa" else "", "photometric": kind,
                "matrix": mats, "white": white, "wb": wb, "active": img["active"], "crop_area": img["crop"] if c["has"] else None, "orientation": ori, "data": "u16", "crop": x["mode"],
                "compression": rng.choice(["none", "lossless"]), "predictor": rng.randint(1, 7), "root": rng.random() < .5, "black": {"levels": [list(v) for v in bl], "w": t["bw"], "h": t["bh"], "cpp": cpp}}
        px = np.random.default_rng(seed).integers(0, 1 << 16, h * w * cpp).astype("<u2")
        j, out = call(head, px.tobytes(), 60)
        case = dict(head=head, seed=seed, t=t)
        if rawhost.failed(j):
            return case, "writing failed: %r" % j, None
        l, _ = call({"op": "decode"}, bytes(out), 60)
        if rawhost.failed(l):
            return case, "the own decoder fails: %r" % l, None
        try:
            of = tiff.File(bytes(out))
            oi, orr = dng.find_raw(of), of.roots[0]
            vals, names = [], []

            def val(name, a_, b_, tol=0):
                vals.append([int(a_), int(b_), int(tol)])
                names.append(name)

            def same(name, a_, b_):
                val(name, ids(a_), ids(b_))
            same("white level", white, list(oi.get(50717)))
            if kind == "cfa" or cpp > 1:
                n = {1: 3, 3: 3, 4: 4}[ncol] if kind == "cfa" else cpp
                want = [1 / np.float32(v) for v in wb[:n]]
                nt = [num(v) for v in orr.get(50728)]
                if n <= len(wb):
                    val("neutral values", n, len(nt))
                    for a_, b_ in zip(want, nt):
                        val("neutral", round(float(a_) * 100000), round(b_ * 100000), 1)
                # illuminant A first, else the smallest; then D65 or D50
                first = 17 if 17 in ms else ms[0]
                rest = [m for m in ms if m != first]
                second = 21 if 21 in rest else (23 if 23 in rest else None)
                for tag, il, m in ((50721, 50778, first), (50722, 50779, second)):
                    if m is None:
                        val("matrix", 0, 1 if tag in orr.ent else 0)
                    else:
                        same("illuminant", m, orr.one(il))
                        for a_, b_ in zip(dict((k, v) for k, v in mats)[m], orr.get(tag)):
                            val("matrix", round(a_ * 10000), round(num(b_) * 10000))
                got = {k: [round(v * 10000) for v in m] for k, m in l["matrix"]}
                same("matrices read", {k: [round(v * 10000) for v in dict((a_, b_) for a_, b_ in mats)[k]] for k in [first] + ([second] if second else [])}, {k: got[k] for k in [first] + ([second] if second else []) if k in got})
            return case, None, (dict(src=t, mode=x["mode"], img=img, out=tags(oi), img2=image(l), vals=vals), names)
        except (tiff.Bad, IndexError, ValueError, KeyError, TypeError) as e:
            return case, "malformed output: %r" % e, None

    trace = []
    rejected = 0
    with rawhost.Pool(10) as P:
        for name, fn, items in (("convert", one, work), ("write", written, [x for x in cases if x["t"]["ph"] * x["t"]["pw"] in (1, 4, 36)][-ctx.pick(700, 6000):])):
            jobs = [(x, ctx.rng.randrange(1 << 30)) for x in items]
            for case, err, rec in P.map(fn, jobs):
                ctx.traces += 1
                if err:
                    ctx.violation("%s:%s" % (name, err.split(":")[0]), case, "%s of %r: %s" % (name, {k: case["t"][k] for k in ("act", "crop", "ph", "pw", "bh", "bw", "cpp")}, err))
                elif rec is None:
                    rejected += 1
                else:
                    trace.append((name, case) + rec)
                if ctx.too_many():
                    return
    # the command with its own options
    exe = common.build_cli()
    d = common.scratch("p16", common.NOBODY)
    for k in range(ctx.pick(9, 45)):
        rng = random.Random(ctx.rng.randrange(1 << 30))
        mode = ["best", "active", "none"][k % 3]
        t = dict(w=18, h=15, cpp=1, act=[3, 1, 14, 17], crop=dict(has=True, x=2, y=1, w=9, h=8), ph=2, pw=2, pat=rng.choice([[0, 1, 1, 2], [1, 0, 2, 1], [2, 1, 1, 0]]), bh=2, bw=2, black=[v * 1000 for v in rng.sample(range(1, 999), 4)], cfa=True)
        data = dng.make(np.random.default_rng(k).integers(0, 65536, (15, 18)), cfa=(2, 2, bytes(t["pat"])), active=t["act"], crop=[2, 1, 9, 8], black=[v // 1000 for v in t["black"]], blackrep=[2, 2], orientation=k % 8 + 1)
        i, o = d + "/i%d.dng" % k, d + "/o%d.dng" % k
        open(i, "wb").write(data)
        a = [exe, "convert", "--crop", {"active": "activearea"}.get(mode, mode), "--embed-raw", "false", i, o]
        r = subprocess.run(a, preexec_fn=common.demote, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env={"PATH": "/usr/bin:/bin", "HOME": d, "TZ": "UTC"})
        ctx.traces += 1
        case = dict(t=t, args=a[1:], src=data.hex())
        if r.returncode or not os.path.exists(o):
            ctx.violation("command", case, "dnglab %s: exit %d %s" % (" ".join(a[1:]), r.returncode, r.stdout[-200:]))
            continue
        out = open(o, "rb").read()
        try:
            of = tiff.File(out)
            ot = tags(dng.find_raw(of))
            full = lambda T: dict(w=T["w"], h=T["h"], hasactive=True, active=[T["act"][1], T["act"][0], T["act"][3] - T["act"][1], T["act"][2] - T["act"][0]], hascrop=False, crop=[], ph=T["ph"], pw=T["pw"],
                                  pat=[T["pat"][((y - T["act"][0]) % 2) * 2 + (x - T["act"][1]) % 2] for y in (0, 1) for x in (0, 1)], bh=2, bw=2, cpp=1,
                                  black=[T["black"][((y - T["act"][0]) % 2) * 2 + (x - T["act"][1]) % 2] for y in (0, 1) for x in (0, 1)])
            crop = lambda T: dict(full(T), hascrop=T["crop"]["has"], crop=[T["act"][1] + T["crop"]["x"], T["act"][0] + T["crop"]["y"], T["crop"]["w"], T["crop"]["h"]] if T["crop"]["has"] else [])
            trace.append(("command", case, dict(src=t, mode=mode, img=crop(t), out=ot, img2=crop(ot), vals=[[k % 8 + 1, of.roots[0].one(274, 1), 0]]), ["orientation"]))
        except (tiff.Bad, IndexError, ValueError, KeyError, TypeError) as e:
            ctx.violation("command:malformed", case, "malformed output: %r" % e)
    ctx.need(len(trace) >= 2000, "conversions")
    for s in range(0, len(trace), 5000):
        part = trace[s:s + 5000]
        for x in common.validate("GeometryTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", [p[2] for p in part], ctx):
            name, case, rec, names = part[x["reject"] - 1]
            why = x["why"]
            if why == "value":
                why = "value: " + ", ".join(sorted({"%s %d/%d" % (n, v[0], v[1]) if not n.startswith("tag") else n for n, v in zip(names, rec["vals"]) if abs(v[0] - v[1]) > v[2]}))
            ctx.violation("%s:%s" % (name, " ".join(why.split()[:3])), dict(case, record=rec), "%s, crop mode %s: %s" % (name, rec["mode"], why))
            if ctx.too_many():
                return
    ctx.sample({k: v for k, v in trace[0][2].items() if k != "vals"})
    ctx.count("geometries", len(cases))
    ctx.count("conversions_validated_by_tlc", len(trace))
    ctx.count("unsupported_sensor_types_rejected", rejected)
    ctx.count("values_compared", sum(len(p[2]["vals"]) for p in trace))
