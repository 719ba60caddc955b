----------------------------- MODULE MCMakeDng -----------------------------
(* Every place and outcome of makedng, step by step; the ends are replayed into the real program. *)
EXTENDS MakeDng, TLC, Json
VARIABLE s
Init == \E b \in Before, f \in BOOLEAN, k \in Works : s = Start(b, f, k)
Next == s' \in Steps(s)
Spec == Init /\ [][Next]_s
KeptAlways == Kept(s)
EndedWell == Ended(s)
Emit == s.pc = "end" => PrintT(ToJson(s))
=============================================================================
