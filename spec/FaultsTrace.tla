----------------------------- MODULE FaultsTrace -----------------------------
(* Recorded outcomes for files that are cut.  A record holds the parts of    *)
(* the file (class and end), the length left and the outcome: "error",       *)
(* "same" (exactly the samples of the whole file), "image" (others).         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
LostParts(x) == {x.parts[i].class : i \in {j \in 1..Len(x.parts) : x.parts[j].end > x.len}}
\* without its blocks or the directories leading to them there is no image, and never a part of it
Allowed(x) ==
    IF LostParts(x) \cap {"header", "dir", "block"} # {} THEN {"error"}
    ELSE IF LostParts(x) \cap {"decode"} # {} THEN {"error", "same", "image"}
    ELSE IF LostParts(x) \cap {"value"} # {} THEN {"error", "same"}
    ELSE {"same"}
Init == r \in 1..Len(Recs)
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
Emit == (Recs[r].outcome \notin Allowed(Recs[r])) => PrintT(ToJson([reject |-> r, why |-> Recs[r].outcome]))
=============================================================================
