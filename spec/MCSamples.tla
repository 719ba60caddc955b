------------------------------ MODULE MCSamples ------------------------------
(* Where the samples of a track are: chunks at given offsets, runs of chunks with the  *)
(* same number of samples (first chunk, samples per chunk), sizes per sample or one for *)
(* all. Samples are placed one by one; the tables must denote these places.            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Chunks, PerChunk, Split
Seqs(S, n) == UNION {[1..m -> S] : m \in 1..n}
VARIABLES per, cut, uniform, rev, chunk, within, at, locs
vars == <<per, cut, uniform, rev, chunk, within, at, locs>>
\* runs: a new entry wherever the number changes, and (redundantly) at chunk cut
Starts == {c \in 1..Len(per) : c = 1 \/ per[c] # per[c - 1] \/ c = cut}
RECURSIVE Runs(_)
Runs(c) == IF c > Len(per) THEN <<>> ELSE IF c \in Starts THEN <<[first |-> c, per |-> per[c]]>> \o Runs(c + 1) ELSE Runs(c + 1)
SizeOf(n) == IF uniform THEN 7 ELSE 3 + 5 * n
RECURSIVE Upto(_)
Upto(c) == IF c = 0 THEN 0 ELSE per[c] + Upto(c - 1)
\* chunks are anywhere, in either order, with gaps
Offset(c) == IF rev THEN 5000 - 1000 * c ELSE 100 + 900 * c
Init == per \in Seqs(1..PerChunk, Chunks) /\ cut \in (IF Split THEN 0..Len(per) ELSE {0}) /\ uniform \in BOOLEAN /\ rev \in BOOLEAN
        /\ chunk = 1 /\ within = 0 /\ at = Offset(1) /\ locs = <<>>
Place ==
  /\ chunk <= Len(per)
  /\ locs' = Append(locs, <<at, SizeOf(Len(locs) + 1)>>)
  /\ IF within + 1 < per[chunk] THEN within' = within + 1 /\ chunk' = chunk /\ at' = at + SizeOf(Len(locs) + 1)
     ELSE within' = 0 /\ chunk' = chunk + 1 /\ at' = Offset(chunk + 1)
  /\ UNCHANGED <<per, cut, uniform, rev>>
Spec == Init /\ [][Place]_vars
Done == chunk > Len(per)
Complete == Done => Len(locs) = Upto(Len(per))
\* no two samples overlap
Disjoint == \A i, j \in 1..Len(locs) : i < j => locs[i][1] + locs[i][2] <= locs[j][1] \/ locs[j][1] + locs[j][2] <= locs[i][1]
Emit == Done => PrintT(ToJson([runs |-> Runs(1), n |-> Len(locs), uniform |-> uniform, sizes |-> [i \in 1..Len(locs) |-> SizeOf(i)], chunks |-> [c \in 1..Len(per) |-> Offset(c)], locs |-> locs]))
=============================================================================
