------------------------------ MODULE PumpTrace ------------------------------
(* Recorded schedules of operations on the real bit readers: kind, data, ops *)
(* and outs, the bits of each value (the number of zeros for "z").           *)
EXTENDS Pump, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
\* index of the first operation with a wrong result, 0: none
RECURSIVE Wrong(_, _, _, _)
Wrong(x, s, p, k) ==
    IF k > Len(x.ops) THEN 0
    ELSE LET e == Result(x.kind, s, p, x.ops[k])
         IN IF ~e.ok THEN 0                         \* beyond the data: anything
            ELSE IF k > Len(x.outs) THEN k
            ELSE IF x.outs[k] = (IF x.ops[k][1] = "z" THEN <<e.p - p>> ELSE e.v) THEN Wrong(x, s, e.p, k + 1)
            ELSE k
Init == r \in 1..Len(Recs)
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
Emit == LET w == Wrong(Recs[r], Ordered(Recs[r].kind, Recs[r].data), 0, 1) IN w # 0 => PrintT(ToJson([reject |-> r, why |-> w]))
=============================================================================
