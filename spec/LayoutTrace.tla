---------------------------- MODULE LayoutTrace ----------------------------
(* Rasters found in files: the geometry announced, the blocks' lengths in       *)
(* samples, and probes <<block, position, value>> of the decoded blocks, against *)
(* the image the file was made from, V.                                           *)
EXTENDS Layout, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r
V(R, s) == (R.a * s[2] + R.b * s[1] + R.c + R.d * ((s[1] * s[2]) % 7)) % R.m
Why(R) ==
  LET g == R.g IN
  IF Len(R.len) # NBlocks(g) THEN "blocks"
  ELSE IF \E k \in 1..Len(R.len) : R.len[k] # BlockLen(g, k - 1) THEN "block length"
  ELSE IF \E i \in 1..Len(R.probes) : LET q == R.probes[i] s == At(g, q[1], q[2]) IN Inside(g, s) /\ q[3] # V(R, s) THEN "sample"
  ELSE ""
Init == r \in 1..Len(Recs)
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
Emit == Why(Recs[r]) # "" => PrintT(ToJson([reject |-> r, why |-> Why(Recs[r])]))
=============================================================================
