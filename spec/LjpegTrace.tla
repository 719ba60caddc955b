---------------------------- MODULE LjpegTrace ----------------------------
(* Recorded streams, decoded bit by bit by the specification: record = [s |-> bytes, *)
(* w, h, n, prec, pred |-> what was asked for, px |-> the samples].                    *)
EXTENDS Ljpeg, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, hd, tabs, body, pos, img, bad
vars == <<r, hd, tabs, body, pos, img, bad>>
Total == Recs[r].w * Recs[r].h * Recs[r].n
Init ==
  /\ r \in 1..Len(Recs) /\ pos = 0 /\ img = <<>>
  /\ hd = Header(Recs[r].s)
  /\ LET R == Recs[r] IN
     /\ tabs = IF hd.at < 0 THEN <<>> ELSE [i \in 1..hd.n |-> Table(hd.tab[hd.sel[i]], hd.vals[hd.sel[i]])]
     /\ body = IF hd.at < 0 THEN [b |-> <<>>, ok |-> FALSE] ELSE Unstuff(R.s, hd.at, <<>>)
     /\ bad = IF hd.at < 0 THEN "no scan"
              ELSE IF [w |-> hd.w, h |-> hd.h, n |-> hd.n, prec |-> hd.prec, pred |-> hd.pred, pt |-> hd.pt] # [w |-> R.w, h |-> R.h, n |-> R.n, prec |-> R.prec, pred |-> R.pred, pt |-> 0] THEN "frame"
              ELSE IF ~body.ok THEN "end marker"
              ELSE IF \E i \in 1..hd.n : ~TableOk(tabs[i]) THEN "table"
              ELSE ""
Sample ==
  /\ bad = "" /\ Len(img) < Total
  /\ LET k == Len(img)
         x == Decode1(body.b, pos, tabs[(k % hd.n) + 1])
         v == Mod16(Predict(img, k, hd.w, hd.n, hd.prec, hd.pred) + x.d)
     IN IF x.used = 0 THEN bad' = "code" /\ UNCHANGED <<pos, img>>
        ELSE IF v # Recs[r].px[k + 1] THEN bad' = "sample " \o ToString(k) /\ UNCHANGED <<pos, img>>
        ELSE img' = Append(img, v) /\ pos' = pos + x.used /\ bad' = (IF k + 1 = Total /\ Len(body.b) * 8 - (pos + x.used) >= 8 THEN "left over" ELSE "")
  /\ UNCHANGED <<r, hd, tabs, body>>
Next == Sample
Spec == Init /\ [][Next]_vars
Emit == bad # "" => PrintT(ToJson([reject |-> r, why |-> bad]))
=============================================================================
