---------------------------- MODULE LinearTrace ----------------------------
(* Recorded applications of a linearization table: <<stored, result>> pairs of   *)
(* one image. The table continues with its last value; the result may be         *)
(* dithered by less than the distance of the neighbouring entries, so a sample    *)
(* in a flat part of the table is exact.                                          *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r
T(R, v) == R.table[IF v + 1 > Len(R.table) THEN Len(R.table) ELSE v + 1]
Lo(R, v) == IF v = 0 THEN T(R, v) ELSE T(R, v - 1)
Hi(R, v) == T(R, v + 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Spread(R, v) == Abs(Hi(R, v) - Lo(R, v))
Bad(R) == {i \in 1..Len(R.pairs) : LET v == R.pairs[i][1] o == R.pairs[i][2] IN o \notin 0..65535 \/ 2 * Abs(o - T(R, v)) > Spread(R, v) + (IF Spread(R, v) = 0 THEN 0 ELSE 1)}
Init == r \in 1..Len(Recs)
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
Emit == Bad(Recs[r]) # {} => PrintT(ToJson([reject |-> r, why |-> "sample", at |-> CHOOSE i \in Bad(Recs[r]) : TRUE]))
=============================================================================
