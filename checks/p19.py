"""P19: the lossless JPEG codec (spec/Ljpeg.tla, MCLjpeg.tla, LjpegTrace.tla)."""
import random
import numpy as np
from lib import common, ljpeg, rawhost


def texture(rng, h, w, prec, kind):
    r = np.random.default_rng(rng.randrange(1 << 30))
    m = (1 << prec) - 1
    if kind == "noise":
        a = r.integers(0, m + 1, (h, w))
    elif kind == "flat":
        a = np.full((h, w), rng.choice([0, 1, m, m // 2, (m + 1) // 2]))
    elif kind == "smooth":
        y, x = np.mgrid[0:h, 0:w]
        a = (x * 3 + y * 5 + r.integers(0, 4, (h, w))) & m
    elif kind == "checker":
        y, x = np.mgrid[0:h, 0:w]
        a = np.where((x // rng.randint(1, 3) + y) % 2 == 0, 0, m)
    elif kind == "impulse":
        a = np.full((h, w), (m + 1) // 2)
        for _ in range(rng.randint(1, 6)):
            a[rng.randrange(h), rng.randrange(w)] = rng.choice([0, m])
    else:   # categories with Fibonacci frequencies: the optimal code is deeper than 16 bits
        fib = [1, 2]
        while len(fib) < prec + 1:
            fib.append(fib[-1] + fib[-2])
        order = list(range(1, prec + 1))
        rng.shuffle(order)
        seq = []
        for f, c in zip(fib, order):
            seq += [c] * f
        seq += [0] * fib[-1]
        rng.shuffle(seq)
        v, o = 1 << (prec - 1), []
        for c in seq:
            d = 32768 if c == 16 else rng.randrange(1 << (c - 1), 1 << c) if c else 0
            v = (v + d) & m if rng.random() < .5 else (v - d) & m
            o.append(v)
        o = (o * (h * w // len(o) + 1))[:h * w]
        a = np.array(o).reshape(h, w)
    return a.astype(np.int64)


def run(ctx):
    small = []
    q = ctx.quick
    for w, h, n, prec, vals in [(2, 2, 1, 16, "{0,1,32768,65535}"), (3, 2, 1, 12, "{0,4095}"), (2, 2, 2, 14, "{0,16383}"), (1, 3, 3, 16, "{0,65535}"),
                                (4, 1, 1, 16, "{0,32767,65535}")] + ([] if q else [(2, 2, 1, 16, "{0,1,2,32767,32768,65535}"), (3, 3, 1, 16, "{0,65535}"), (2, 2, 2, 16, "{0,32768,65535}"), (1, 2, 4, 10, "{0,1023}")]):
        res = common.run_tlc("MCLjpeg", "SPECIFICATION Spec\nCONSTANTS W=%d H=%d N=%d Prec=%d Vals=%s\nINVARIANTS RoundTrip Range\nCONSTRAINT Emit\n" % (w, h, n, prec, vals), ctx=ctx)
        ctx.need(len(res.emitted) >= 400, "small images %dx%dx%d" % (w, h, n))
        small += [(w, h, n, prec, e["pred"], e["px"]) for e in res.emitted]
    ctx.need(len({s[4] for s in small}) == 7, "predictors")
    trace = []
    with rawhost.Pool(8) as P:
        def enc(it, call):
            w, h, n, prec, pred, px = it
            j, s = call({"op": "ljenc", "w": w, "h": h, "comp": n, "bps": prec, "pred": pred}, np.array(px, "<u2").tobytes())
            if rawhost.failed(j):
                return j, None, None
            k, out = call({"op": "ljdec", "w": w * n, "h": h}, bytes(s))
            return j, bytes(s), (k, np.frombuffer(out, "<u2").tolist())
        for it, (j, s, back) in zip(small, P.map(enc, small)):
            ctx.traces += 1
            w, h, n, prec, pred, px = it
            case = {"w": w, "h": h, "n": n, "prec": prec, "pred": pred, "px": px, "stream": s.hex() if s else None}
            if s is None:
                ctx.violation("encode:failed", case, "encoder failed: %r" % j)
            elif rawhost.failed(back[0]) or back[1] != px:
                ctx.violation("decode:own", case, "decoder does not give the encoded image back: %r %r" % (back[0], back[1]))
            else:
                trace.append(dict(s=list(s), w=w, h=h, n=n, prec=prec, pred=pred, px=px))
            if ctx.too_many():
                return
        # larger images of all kinds: the real encoder against the independent decoder and the real decoder
        jobs = []
        for _ in range(ctx.pick(200, 3000)):
            n, prec, pred = ctx.rng.choice([1, 1, 2, 2, 3, 4]), ctx.rng.choice(list(range(2, 17)) + [16, 14, 12]), ctx.rng.randint(1, 7)
            kind = ctx.rng.choice(["noise", "flat", "smooth", "checker", "impulse", "fib"] if _ % 8 else ["fib"])
            if _ % 8 == 0:
                n, prec = 1, 16
            w, h = (ctx.rng.randint(1, 40), ctx.rng.randint(1, 24)) if kind != "fib" else (6763, 1)
            pad = ctx.rng.choice([0, 0, 0, 1, 5])
            jobs.append((w, h, n, prec, pred, kind, pad, ctx.rng.randrange(1 << 30)))
        jobs += [(256, 256, 2, 14, p, "noise", 0, p) for p in ([ctx.rng.randint(1, 7)] if q else range(1, 8))] + [(65535, 1, 1, 16, 1, "flat", 0, 1), (1, 65535, 1, 16, 7, "flat", 0, 1), (1, 1, 4, 16, 4, "noise", 0, 3)]

        def big(it, call):
            w, h, n, prec, pred, kind, pad, seed = it
            rng = random.Random(seed)
            a = texture(rng, h, w * n, prec, kind)
            if kind == "fib":
                # the first component carries the sequence, row by row predictor 1 sees it
                a = texture(rng, h, w, prec, kind).repeat(n, axis=1) if n > 1 else a
            padded = np.concatenate([a, texture(rng, h, max(pad * n, 1), prec, "noise")[:, :pad * n]], axis=1) if pad else a
            j, s = call({"op": "ljenc", "w": w, "h": h, "comp": n, "bps": prec, "pred": pred, "pad": pad}, padded.astype("<u2").tobytes(), 60)
            if rawhost.failed(j):
                return a, j, None, None, None
            try:
                d = ljpeg.decode(bytes(s))
                err = None if (d[0], d[1], d[2], d[3], d[4]) == (w, h, n, prec, pred) and np.array_equal(np.array(d[5]), a) else "other image"
            except (ljpeg.Bad, IndexError, KeyError) as e:
                err = repr(e)
            k, out = call({"op": "ljdec", "w": w * n, "h": h}, bytes(s), 60)
            return a, j, bytes(s), err, (k, np.frombuffer(out, "<u2").reshape(h, w * n) if not rawhost.failed(k) else None)
        for it, (a, j, s, err, back) in zip(jobs, P.map(big, jobs)):
            ctx.traces += 1
            w, h, n, prec, pred, kind, pad, seed = it
            case = {"w": w, "h": h, "n": n, "prec": prec, "pred": pred, "kind": kind, "pad": pad, "seed": seed, "stream": s.hex()[:4000] if s else None, "px": a.flatten().tolist()[:3000]}
            if s is None:
                ctx.violation("encode:failed", case, "encoder failed: %r" % j)
            elif err:
                ctx.violation("encode:wrong", case, "an independent decoder does not restore the image (%s, %dx%dx%d, %d bit, predictor %d): %s" % (kind, w, h, n, prec, pred, err))
            elif rawhost.failed(back[0]) or not np.array_equal(back[1], a):
                ctx.violation("decode:own", case, "the decoder does not restore the image (%s, %dx%dx%d, %d bit, predictor %d): %r" % (kind, w, h, n, prec, pred, back[0]))
            elif w * h * n <= 60:
                trace.append(dict(s=list(s), w=w, h=h, n=n, prec=prec, pred=pred, px=a.flatten().tolist()))
            if ctx.too_many():
                return
        # foreign streams: arbitrary canonical codes, shared tables, component identifiers, extra segments; decoded into windows
        fj = [(ctx.rng.randrange(1 << 30), i) for i in range(ctx.pick(300, 3000))]

        def foreign(it, call):
            rng = random.Random(it[0])
            n, prec, pred = rng.choice([1, 2, 3, 4]), rng.choice(list(range(2, 17))), rng.randint(1, 7)
            w, h = (rng.randint(1, 6), rng.randint(1, 4)) if rng.random() < .4 else (rng.randint(1, 40), rng.randint(1, 24))
            a = texture(rng, h, w * n, prec, rng.choice(["noise", "flat", "smooth", "checker", "impulse"]))
            nt = rng.randint(1, n)
            tabs = [ljpeg.random_table(rng) for _ in range(nt)]
            sel = [rng.randrange(nt) for _ in range(n)]
            ids = rng.sample(range(0, 20), n)
            extra = rng.choice([b"", b"\xff\xfe\0\6abcd", b"\xff\xe0\0\x10JFIF\0\1\1\0\0\1\0\1\0\0"])
            s = ljpeg.encode(a.tolist(), w, h, n, prec, pred, tabs, ids, extra, sel)
            # a window of the frame (full components, fewer rows and columns) at an offset in a wider strip
            ww, hh = (w, h) if rng.random() < .5 else (rng.randint(1, w), rng.randint(1, h))
            x, more = (0, 0) if rng.random() < .5 else (rng.randint(0, 5), rng.randint(0, 5))
            sw = x + ww * n + more
            k, out = call({"op": "ljdec", "w": ww * n, "h": hh, "x": x, "sw": sw, "fill": 7}, s)
            want = np.full((hh, sw), 7)
            want[:, x:x + ww * n] = a[:hh, :ww * n]
            ok = not rawhost.failed(k) and np.array_equal(np.frombuffer(out, "<u2")[:hh * sw].reshape(hh, sw), want)
            return dict(s=list(s), w=w, h=h, n=n, prec=prec, pred=pred, px=a.flatten().tolist()), ok, k, (ww, hh, x, sw), extra
        for (rec, ok, k, win, extra) in P.map(foreign, fj):
            ctx.traces += 1
            if not ok:
                ctx.violation("decode:foreign", dict(rec, window=win), "a valid stream (%dx%dx%d, %d bit, predictor %d) is not decoded into window %r: %r" % (rec["w"], rec["h"], rec["n"], rec["prec"], rec["pred"], win, k))
            if len(rec["px"]) <= 60:
                trace.append(rec)
            if ctx.too_many():
                return
    if q and len(trace) > 1000:
        ctx.rng.shuffle(trace)
        trace = trace[:1000]
    ctx.need(len(trace) >= 800, "small streams")
    for i in range(0, len(trace), 6000):
        part = trace[i:i + 6000]
        for x in common.validate("LjpegTrace", "SPECIFICATION Spec\nCONSTRAINT Emit\n", part, ctx):
            rec = part[x["reject"] - 1]
            ctx.violation("trace:" + x["why"].split()[0], rec, "the specification rejects the recorded stream: %s" % x["why"])
            if ctx.too_many():
                return
    ctx.sample({"stream": bytes(trace[0]["s"]).hex(), "px": trace[0]["px"]})
    ctx.count("small_images", len(small))
    ctx.count("large_images", len(jobs))
    ctx.count("foreign_streams", len(fj))
    ctx.count("streams_decoded_by_tlc", len(trace))
