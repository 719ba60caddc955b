----------------------------- MODULE MakeTrace -----------------------------
(* Files makedng made, against MakeDng.tla. *)
EXTENDS MakeDng, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, verdict
Init == r \in 1..Len(Recs) /\ verdict = "open"
Next == verdict = "open" /\ verdict' = Why(Recs[r]) /\ UNCHANGED r
Spec == Init /\ [][Next]_<<r, verdict>>
Emit == verdict \notin {"open", ""} => PrintT(ToJson([reject |-> r, why |-> verdict]))
=============================================================================
