---------------------------- MODULE MCInterleave ----------------------------
(* RowInterleaveFactor / ColumnInterleaveFactor: the fields of a dimension of n  *)
(* lines are stored one after the other, field k holds lines k, k+f, k+2f, ...    *)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANTS MaxN, MaxF
VARIABLES n, f, line, field, stored
vars == <<n, f, line, field, stored>>
\* a writer which goes through the fields
Init == n \in 1..MaxN /\ f \in 1..MaxF /\ line = 0 /\ field = 0 /\ stored = <<>>
Write == line < n /\ stored' = Append(stored, line) /\ line' = line + f /\ UNCHANGED <<n, f, field>>
Field == line >= n /\ field + 1 < f /\ field' = field + 1 /\ line' = field + 1 /\ UNCHANGED <<n, f, stored>>
Next == Write \/ Field
Spec == Init /\ [][Next]_vars
Done == line >= n /\ field + 1 = f
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE Before(_, _)
Before(k, i) == IF i = k THEN 0 ELSE (IF i >= n THEN 0 ELSE CeilDiv(n - i, f)) + Before(k, i + 1)
\* a reader computes the place of line i
Place(i) == Before(i % f, 0) + i \div f
Inverse == Done => Len(stored) = n /\ \A i \in 0..(n - 1) : stored[Place(i) + 1] = i
Emit == Done => PrintT(ToJson([n |-> n, f |-> f, stored |-> stored]))
=============================================================================
