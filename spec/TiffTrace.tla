----------------------------- MODULE TiffTrace -----------------------------
(* Files produced by the real writer for given trees: they denote the tree, their  *)
(* parts do not overlap and start at even offsets.                                 *)
EXTENDS Tiff, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r
Root(R) == Num32(R.file, 4, Little(R.file))
Why(R) ==
  CASE ~Header(R.file) -> "header"
    [] ~FileDenotes(R.file, 0, R.dirs, <<1>>) -> "content"
    [] ~Disjoint(Used(R.file, 0, R.dirs, 1, Root(R))) -> "overlap"
    [] ~Even(Used(R.file, 0, R.dirs, 1, Root(R))) -> "odd offset"
    [] OTHER -> ""
Init == r \in 1..Len(Recs)
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
Emit == LET w == Why(Recs[r]) IN w # "" => PrintT(ToJson([reject |-> r, why |-> w]))
=============================================================================
