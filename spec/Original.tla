------------------------------ MODULE Original ------------------------------
(* The container in which a DNG carries the original raw file: the file is cut  *)
(* into blocks of B units, every block is compressed on its own, an index holds *)
(* the boundaries of the compressed blocks, a digest covers the original.       *)
(* A container may be damaged between writing and extraction.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS B, MaxLen

VARIABLES len,    \* units of the original file
          cont,   \* [size, blocks, index, digest]
          fault,  \* what happened to the container
          skip,   \* extraction without checks
          out,    \* what extraction delivers: "none" yet, "fail", or the sequence of units written
          st
vars == <<len, cont, fault, skip, out, st>>

NBlocks(n) == (n + B - 1) \div B
Min2(a, b) == IF a < b THEN a ELSE b
\* block k (0-based) of a file with n units holds the units k*B .. Min((k+1)*B, n) - 1
Block(n, k) == [i \in 1..(Min2((k + 1) * B, n) - k * B) |-> k * B + i - 1]
Orig(n) == [i \in 1..n |-> i - 1]

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

Embed(n) == [size |-> n, blocks |-> [k \in 1..NBlocks(n) |-> [u |-> Block(n, k - 1), ok |-> TRUE]], index |-> "ok", digest |-> "ok"]

\* positions worth distinguishing among the blocks of a file
Spots(n) == IF NBlocks(n) = 0 THEN {} ELSE {1, NBlocks(n)}

Faults(n) ==
  {[k |-> "none", at |-> 0], [k |-> "digestflip", at |-> 0], [k |-> "digestgone", at |-> 0], [k |-> "datagone", at |-> 0], [k |-> "truncate", at |-> 0]}
  \cup {[k |-> "flip", at |-> b] : b \in Spots(n)}
  \cup {[k |-> "index", at |-> b] : b \in Spots(n)}
  \cup (IF n > 0 THEN {[k |-> "drop", at |-> b] : b \in Spots(n)} \cup {[k |-> "dup", at |-> b] : b \in {b \in Spots(n) : b * B <= n}} ELSE {})   \* a full block, so that the number of blocks still fits the size
  \cup (IF NBlocks(n) > 1 THEN {[k |-> "swap", at |-> 1], [k |-> "sizeblocks", at |-> 0]} ELSE {})
  \cup (IF n > 0 THEN {[k |-> "othercontent", at |-> b] : b \in Spots(n)} ELSE {})

Without(s, b) == SubSeq(s, 1, b - 1) \o SubSeq(s, b + 1, Len(s))
Total(bl) == Len(Flat([i \in 1..Len(bl) |-> bl[i].u]))
Damage(c, f) ==
  CASE f.k = "none" -> c
    [] f.k = "digestflip" -> [c EXCEPT !.digest = "bad"]
    [] f.k = "digestgone" -> [c EXCEPT !.digest = "none"]
    [] f.k = "datagone" -> [c EXCEPT !.index = "absent"]
    [] f.k = "truncate" -> [c EXCEPT !.index = "short"]
    [] f.k = "sizeblocks" -> [c EXCEPT !.index = "short", !.size = 1]   \* the size announces fewer blocks than there are
    [] f.k = "flip" -> [c EXCEPT !.blocks[f.at].ok = FALSE]
    [] f.k = "index" -> [c EXCEPT !.blocks[f.at].ok = FALSE]
    \* consistent containers with other content: only the digest can tell
    [] f.k = "drop" -> LET bl == Without(c.blocks, f.at) IN [c EXCEPT !.blocks = bl, !.size = Total(bl)]
    [] f.k = "dup" -> LET bl == SubSeq(c.blocks, 1, f.at) \o SubSeq(c.blocks, f.at, Len(c.blocks)) IN [c EXCEPT !.blocks = bl, !.size = Total(bl)]
    [] f.k = "swap" -> [c EXCEPT !.blocks = <<c.blocks[2], c.blocks[1]>> \o SubSeq(c.blocks, 3, Len(c.blocks))]
    [] f.k = "othercontent" -> [c EXCEPT !.blocks[f.at].u = [i \in DOMAIN c.blocks[f.at].u |-> 1000 + c.blocks[f.at].u[i]]]

Init ==
  /\ len \in 0..MaxLen /\ skip \in BOOLEAN
  /\ cont = <<>> /\ fault = [k |-> "none", at |-> 0] /\ out = [k |-> "none", u |-> <<>>] /\ st = "new"
Write == st = "new" /\ cont' = Embed(len) /\ st' = "embedded" /\ UNCHANGED <<len, fault, skip, out>>
Tamper == st = "embedded" /\ \E f \in Faults(len) : fault' = f /\ cont' = Damage(cont, f) /\ st' = "stored" /\ UNCHANGED <<len, skip, out>>

Content == Flat([i \in 1..Len(cont.blocks) |-> cont.blocks[i].u])
Readable == cont.index = "ok" /\ \A i \in 1..Len(cont.blocks) : cont.blocks[i].ok
DigestMatches == cont.digest = "ok" /\ Content = Orig(len)
\* a damaged compressed block may still inflate (to anything), only with checks is the result decided
Fail == [k |-> "fail", u |-> <<>>]
Is(u) == [k |-> "is", u |-> u]
Anything == [k |-> "anything", u |-> <<>>]
Extract ==
  /\ st = "stored" /\ st' = "done"
  /\ out' \in IF cont.index = "absent" THEN {Fail}
              ELSE IF cont.index = "ok" /\ Readable THEN (IF skip \/ DigestMatches THEN {Is(Content)} ELSE {Fail})
              ELSE IF skip THEN {Fail, Anything} ELSE {Fail}
  /\ UNCHANGED <<len, cont, fault, skip>>
Next == Write \/ Tamper \/ Extract
Spec == Init /\ [][Next]_vars

\* with checks, extraction delivers the original or nothing
NeverWrong == st = "done" /\ ~skip => (out = Fail \/ out = Is(Orig(len)))
\* an undamaged container always gives the original back
RoundTrip == st = "done" /\ fault.k = "none" => out = Is(Orig(len))
\* every block but the last is full, and blocks are never empty
Blocks == st = "embedded" =>
  /\ Len(cont.blocks) = NBlocks(len)
  /\ \A i \in 1..Len(cont.blocks) : Len(cont.blocks[i].u) = (IF i < Len(cont.blocks) THEN B ELSE len - (i - 1) * B) /\ Len(cont.blocks[i].u) > 0
  /\ Content = Orig(len)
Emit == st = "done" => PrintT(ToJson([len |-> len, fault |-> fault, skip |-> skip, out |-> out]))
=============================================================================
