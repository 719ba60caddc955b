------------------------------ MODULE MCLjpeg ------------------------------
(* Every small image over a set of telling values: coding the differences and  *)
(* decoding them again gives the image for every predictor.                      *)
EXTENDS Ljpeg, Json
CONSTANTS W, H, N, Prec, Vals
VARIABLES img, pred, diffs, dec, st
vars == <<img, pred, diffs, dec, st>>
Total == W * H * N
Init == pred \in 1..7 /\ img \in [1..Total -> Vals] /\ diffs = <<>> /\ dec = <<>> /\ st = "enc"
Enc == /\ st = "enc"
       /\ LET k == Len(diffs) IN diffs' = Append(diffs, Signed(img[k + 1] - Predict(img, k, W, N, Prec, pred)))
       /\ st' = (IF Len(diffs) + 1 = Total THEN "dec" ELSE "enc") /\ UNCHANGED <<img, pred, dec>>
Dec == /\ st = "dec" /\ Len(dec) < Total
       /\ LET k == Len(dec) s == Category(diffs[k + 1])
          IN  LET v == IF diffs[k + 1] > 0 THEN diffs[k + 1] ELSE diffs[k + 1] + Pow2(s) - 1
              IN dec' = Append(dec, Mod16(Predict(dec, k, W, N, Prec, pred) + Extend(s, v)))
       /\ UNCHANGED <<img, pred, diffs, st>>
Next == Enc \/ Dec
Spec == Init /\ [][Next]_vars
RoundTrip == st = "dec" => \A i \in 1..Len(dec) : dec[i] = img[i]
Range == \A i \in 1..Len(diffs) : diffs[i] \in -32767..32768
Emit == st = "dec" /\ Len(dec) = Total => PrintT(ToJson([px |-> img, pred |-> pred]))
=============================================================================
