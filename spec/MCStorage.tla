----------------------------- MODULE MCStorage -----------------------------
(* Small images in every uncompressed storage: a writer stores block after block *)
(* (padding is arbitrary), a reader takes them apart again.                       *)
EXTENDS Storage, Json
CONSTANTS W, H, T, Cpps, Bps, Pats
Geoms == {x \in [w : 1..W, h : 1..H, tw : 1..(IF T > W THEN T ELSE W), th : 1..(IF T > H THEN T ELSE H), cpp : Cpps, strips : BOOLEAN] :
            IF x.strips THEN x.tw = x.w /\ x.th <= x.h ELSE x.tw <= T /\ x.th <= T /\ x.tw > 1}
VARIABLES g, bps, e, pat, blocks, img, st
vars == <<g, bps, e, pat, blocks, img, st>>
\* sample values: all ones, alternating extremes, counting, single bits
Px(s, p, b, n) ==
  LET i == s[1] * n + s[2] IN
  CASE p = "ones" -> 2^b - 1
    [] p = "alt" -> IF i % 2 = 0 THEN 0 ELSE 2^b - 1
    [] p = "count" -> (i * 37 + 5) % 2^b
    [] p = "bit" -> 2^(i % b)
    [] p = "byte" -> ((i + 1) * 257 + 129) % 2^b
Init == g \in Geoms /\ bps \in Bps /\ e \in {"big", "little"} /\ pat \in Pats /\ blocks = <<>> /\ img = <<>> /\ st = "write"
Pixel(s) == Px(s, pat, bps, g.w * g.cpp)
Stored(k) ==
  LET rows == [y \in 1..BlockRows(g, k) |-> RowBytes([x \in 1..RowLen(g) |-> LET s == At(g, k, (y - 1) * RowLen(g) + x - 1) IN IF Inside(g, s) THEN Pixel(s) ELSE 2^bps - 1 - (x % 2)], bps, e)]
  IN Concat(rows, 1, BlockRows(g, k))
WriteBlock ==
  /\ st = "write" /\ blocks' = Append(blocks, Stored(Len(blocks)))
  /\ st' = (IF Len(blocks) + 1 = NBlocks(g) THEN "read" ELSE "write") /\ UNCHANGED <<g, bps, e, pat, img>>
SampleOf(s) ==
  LET k == BlockOf(g, s) p == PosIn(g, s) rb == RowLenBytes(RowLen(g), bps) y == p \div RowLen(g)
  IN RowSamples(SubSeq(blocks[k + 1], y * rb + 1, (y + 1) * rb), RowLen(g), bps, e)[(p % RowLen(g)) + 1]
Read ==
  /\ st = "read" /\ st' = "end"
  /\ img' = [i \in 1..(g.h * g.w * g.cpp) |-> SampleOf(<<(i - 1) \div (g.w * g.cpp), (i - 1) % (g.w * g.cpp)>>)]
  /\ UNCHANGED <<g, bps, e, pat, blocks>>
Next == WriteBlock \/ Read
Spec == Init /\ [][Next]_vars
Same == st = "end" => \A i \in 1..Len(img) : img[i] = Pixel(<<(i - 1) \div (g.w * g.cpp), (i - 1) % (g.w * g.cpp)>>)
Bytes == \A k \in 1..Len(blocks) : Len(blocks[k]) = BlockRows(g, k - 1) * RowLenBytes(RowLen(g), bps) /\ \A j \in 1..Len(blocks[k]) : blocks[k][j] \in 0..255
Emit == st = "end" => PrintT(ToJson([g |-> g, bps |-> bps, e |-> e, pat |-> pat, blocks |-> blocks, img |-> img]))
=============================================================================
