---------------------------- MODULE DevelopTrace ----------------------------
(* Developed pictures against Develop.tla; x.mode, x.ok, x.out = [w, h, spp, data (rows)]; *)
(* x.flat: the scene has surroundings of one colour; x.plain: the matrix may be Plain.     *)
EXTENDS Develop, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
Inv == ndJsonDeserialize(IOEnv.CURVE)[1]
VARIABLES r, verdict
Pixel(x, row, c) == SubSeq(x.out.data[row + 1], (c * x.out.spp) + 1, (c + 1) * x.out.spp)
Mono(x, row, c) ==
  LET s == Site(x, x.mode, row, c) v == Linear(x, s, 1) y == Pixel(x, row, c)[1] k == 10 + (v \div 500000) IN
  IF v >= Unit THEN y = 65535 ELSE Low(Inv, y) - k <= v /\ v <= High(Inv, y) + k
Three(x, row, c) ==
  LET s == Site(x, x.mode, row, c) p == Pixel(x, row, c) IN
  (Clipped(Inv, p) /\ ~(x.plain /\ Calm(x, {<<i, Linear(x, s, i)>> : i \in 1..3}))) \/ \A i \in 1..3 : LET v == Linear(x, s, i) IN Measures(Inv, x, i, p, v, Slack(100 * v))
\* the measured colour is found again; where the surroundings are of one colour, all colours are
Mosaic(x, lin, col, row, c) ==
  LET s == Site(x, x.mode, row, c) p == Pixel(x, row, c) i == col[s[1]][s[2]] v == lin[s[1]][s[2]] clipped == Clipped(Inv, p) IN
  (clipped /\ ~x.plain)
  \/ LET L == IF clipped \/ x.flat THEN TLCEval(Lights(lin, col, Around(x, x.mode, s, 3))) ELSE {} IN
     (clipped /\ ~Calm(x, L))
     \/ /\ (x.sensor = "bayer" /\ Len(x.m) = 3) => Measures(Inv, x, i, p, v, Slack(100 * v))
        /\ (x.flat /\ Flat(L)) => \A l \in L : Measures(Inv, x, l[1], p, l[2], Slack(100 * l[2]) + x.noise)
Slope(x, lin, col, row, c) ==
  LET s == Site(x, x.mode, row, c) p == Pixel(x, row, c) IN
  Clipped(Inv, p) \/ ~Inside(x, x.mode, s, 3)
  \/ \A a \in Around(x, x.mode, s, 1) : LET v == Ramped(x, s, a, lin[a[1]][a[2]]) IN Measures(Inv, x, col[a[1]][a[2]], p, v, Slack(100 * v) + x.noise)
Verdict(x) ==
  LET q == Picture(x, x.mode) IN
  IF ~x.ok THEN "not developed"
  ELSE IF x.out.w # q.w \/ x.out.h # q.h THEN "size"
  ELSE IF x.out.spp # (IF x.kind = "mono" THEN 1 ELSE 3) THEN "samples per pixel"
  ELSE IF x.kind = "mono" THEN IF \E row \in 0..(q.h - 1), c \in 0..(q.w - 1) : ~Mono(x, row, c) THEN "grey value" ELSE ""
  ELSE IF x.kind = "linear" THEN IF \E row \in 0..(q.h - 1), c \in 0..(q.w - 1) : ~Three(x, row, c) THEN "colour" ELSE ""
  ELSE LET f == Frame(x, x.mode)
           lin == TLCEval([a \in f.t..(f.t + f.h - 1) |-> TLCEval([b \in f.l..(f.l + f.w - 1) |-> Linear(x, <<a, b>>, 1)])])
           col == TLCEval([a \in f.t..(f.t + f.h - 1) |-> TLCEval([b \in f.l..(f.l + f.w - 1) |-> ColourAt(x, <<a, b>>) + 1])])
       IN IF \E row \in 0..(q.h - 1), c \in 0..(q.w - 1) : ~Mosaic(x, lin, col, row, c) THEN "colour of the mosaic"
          ELSE IF x.ramp # <<>> /\ \E row \in 0..(q.h - 1), c \in 0..(q.w - 1) : ~Slope(x, lin, col, row, c) THEN "colours between sites" ELSE ""
Init == r \in 1..Len(Recs) /\ verdict = "open"
Next == verdict = "open" /\ verdict' = Verdict(Recs[r]) /\ UNCHANGED r
Spec == Init /\ [][Next]_<<r, verdict>>
Emit == verdict \notin {"open", ""} => PrintT(ToJson([reject |-> r, why |-> verdict]))
=============================================================================
