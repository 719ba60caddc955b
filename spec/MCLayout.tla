------------------------------ MODULE MCLayout ------------------------------
(* Every small geometry: blocks are written one after the other and read back.  *)
EXTENDS Layout, Json
CONSTANTS MaxW, MaxH, MaxT, MaxC
VARIABLES g, done, seen, st
vars == <<g, done, seen, st>>
Geoms == {x \in [w : 1..MaxW, h : 1..MaxH, tw : 1..MaxW, th : 1..MaxT, cpp : 1..MaxC, strips : BOOLEAN] : IF x.strips THEN x.tw = x.w ELSE x.tw <= MaxT}
Init == g \in Geoms /\ done = 0 /\ seen = {} /\ st = "blocks"
Block ==
  /\ st = "blocks" /\ done < NBlocks(g)
  /\ seen' = seen \cup {At(g, done, p) : p \in {p \in 0..(BlockLen(g, done) - 1) : Inside(g, At(g, done, p))}}
  /\ done' = done + 1 /\ st' = (IF done + 1 = NBlocks(g) THEN "end" ELSE "blocks") /\ UNCHANGED g
Next == Block
Spec == Init /\ [][Next]_vars
\* no sample is stored twice, in the end every one is stored, where the reader looks for it
Once == st = "blocks" /\ done < NBlocks(g) => \A p \in 0..(BlockLen(g, done) - 1) : At(g, done, p) \notin seen
Complete == st = "end" => seen = Samples(g)
Inverse == st = "end" => \A s \in Samples(g) : At(g, BlockOf(g, s), PosIn(g, s)) = s /\ PosIn(g, s) < BlockLen(g, BlockOf(g, s))
Emit == st = "end" => PrintT(ToJson([g |-> g, n |-> NBlocks(g), len |-> [k \in 1..NBlocks(g) |-> BlockLen(g, k - 1)]]))
=============================================================================
