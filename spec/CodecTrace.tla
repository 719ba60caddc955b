----------------------------- MODULE CodecTrace -----------------------------
(* Recorded runs of the real decoders: codec, dimensions, bytes, samples.     *)
EXTENDS Codecs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, verdict
Exact(x, d) == IF ~d.ok THEN "stream" ELSE IF Len(x.out) # Len(d.out) THEN "size"
               ELSE IF \A k \in DOMAIN d.out : x.out[k] = d.out[k] % 65536 THEN "" ELSE "samples"
Looked(x, d, tab, n) == IF ~d.ok THEN "stream" ELSE IF Len(x.out) # Len(d.out) THEN "size"
               ELSE IF \A k \in DOMAIN d.out : Near(tab, n, d.out[k], x.out[k]) THEN "" ELSE "samples"
Verdict(x) ==
    LET b == x.data w == x.w h == x.h IN
    CASE x.codec = "arw1" -> Exact(x, Arw1(b, w, h))
      [] x.codec = "arw2" -> LET c == Arw2Curve(x.curve) IN Looked(x, Arw2(b, w, h), c, 4096)
      [] x.codec = "srf" -> LET o == Srf(b, x.key, x.len) IN Exact(x, [ok |-> TRUE, out |-> [k \in 1..(w * h) |-> By(o, 2 * k - 2) * 256 + By(o, 2 * k - 1)]])
      [] x.codec = "orf" -> Exact(x, Orf(b, w, h))
      [] x.codec = "srw1" -> Exact(x, Srw1(b, x.offs, w, h))
      [] x.codec = "srw2" -> Exact(x, Srw2(b, w, h))
      [] x.codec = "srw3" -> Exact(x, Srw3(b, w, h))
      [] x.codec = "pana4" -> Exact(x, Pana4(b, w, h, x.split))
      [] x.codec = "pana5" -> Exact(x, Pana5(b, w, h, x.bps))
      [] x.codec = "pana6" -> Exact(x, Pana6(b, w, h, x.bps))
      [] x.codec = "pana7" -> Exact(x, Pana7(b, w, h, x.bps))
      [] x.codec = "pana8" -> Exact(x, Pana8(x, w, h))
      [] x.codec = "kodak" -> LET t == [i \in 0..1023 |-> x.table[i + 1]] IN Looked(x, Kodak(b, w, h), t, 1024)
      [] x.codec = "pef" -> Exact(x, Pef(b, w, h))
      [] x.codec = "pefwith" -> Exact(x, PefWith(b, x.huff, x.be, w, h))
      [] x.codec = "nef" -> LET m == NikonMeta(x.meta, x.be, x.bps) IN Looked(x, Nef(b, m, w, h), m.curve, m.size)
      [] x.codec = "crw" -> LET d == Crw(b, x.table + 1, w, h) IN Exact(x, IF x.low = <<>> THEN d ELSE CrwLow(d, x.low))
      [] x.codec = "leaf" ->
           LET t == <<Canon(x.cnt[1], x.vals[1]), Canon(x.cnt[2], x.vals[2])>>
               n == (h + 7) \div 8
               s == [k \in 1..n |-> LeafStrip(x.strips[k], t, w, IF k = n THEN h - 8 * (n - 1) ELSE 8, x.start)]
               all == FoldLeft(LAMBDA a, k : a \o s[k].out, <<>>, [k \in 1..n |-> k])
           IN Exact(x, [ok |-> \A k \in 1..n : s[k].ok, out |-> IF x.inter THEN Interlaced(all, w, h) ELSE all])
Init == r \in 1..Len(Recs) /\ verdict = "open"
Next == verdict = "open" /\ verdict' = Verdict(Recs[r]) /\ UNCHANGED r
Spec == Init /\ [][Next]_<<r, verdict>>
Emit == verdict \notin {"open", ""} => PrintT(ToJson([reject |-> r, why |-> verdict]))
=============================================================================
