------------------------------ MODULE DngTrace ------------------------------
(* What a DNG file must look like for any reader: recorded structures of files that  *)
(* were produced by the real program. A record has the file's size, its byte ranges   *)
(* in ascending order, and every directory with role, entries and data blocks.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r
S(t, n) == [t |-> t, n |-> n]
\* counts: k > 0 exactly k, 0 any, -1 samples per pixel, -2 three per colour, -3 one per colour, -4 multiple of 4, -5 pairs, -6 text
Free == 0  Spp == -1  Mat == -2  Cols == -3  Fours == -4  Pairs == -5  Text == -6
I1 == {3, 4}
Schema ==
  (254 :> S({4}, 1)) @@ (256 :> S(I1, 1)) @@ (257 :> S(I1, 1)) @@ (258 :> S({3}, Spp)) @@ (259 :> S({3}, 1)) @@ (262 :> S({3}, 1))
  @@ (270 :> S({2}, Text)) @@ (271 :> S({2}, Text)) @@ (272 :> S({2}, Text)) @@ (273 :> S(I1, Free)) @@ (274 :> S({3}, 1)) @@ (277 :> S({3}, 1)) @@ (278 :> S(I1, 1)) @@ (279 :> S(I1, Free))
  @@ (282 :> S({5}, 1)) @@ (283 :> S({5}, 1)) @@ (284 :> S({3}, 1)) @@ (296 :> S({3}, 1)) @@ (305 :> S({2}, Text)) @@ (306 :> S({2}, 20)) @@ (315 :> S({2}, Text)) @@ (317 :> S({3}, 1))
  @@ (322 :> S(I1, 1)) @@ (323 :> S(I1, 1)) @@ (324 :> S({4}, Free)) @@ (325 :> S(I1, Free)) @@ (330 :> S({4}, Free)) @@ (338 :> S({3}, Free)) @@ (339 :> S({3}, Spp))
  @@ (33421 :> S({3}, 2)) @@ (33422 :> S({1}, Free)) @@ (33432 :> S({2}, Text)) @@ (34665 :> S({4}, 1)) @@ (34853 :> S({4}, 1))
  @@ (50706 :> S({1}, 4)) @@ (50707 :> S({1}, 4)) @@ (50708 :> S({2}, Text)) @@ (50710 :> S({1}, Cols)) @@ (50711 :> S({3}, 1)) @@ (50713 :> S({3}, 2)) @@ (50714 :> S({3, 4, 5}, Free))
  @@ (50715 :> S({10}, Free)) @@ (50716 :> S({10}, Free)) @@ (50717 :> S(I1, Spp)) @@ (50718 :> S({5}, 2)) @@ (50719 :> S({3, 4, 5}, 2)) @@ (50720 :> S({3, 4, 5}, 2))
  @@ (50721 :> S({10}, Mat)) @@ (50722 :> S({10}, Mat)) @@ (50727 :> S({5}, Cols)) @@ (50728 :> S({3, 5}, Cols)) @@ (50729 :> S({5}, 2)) @@ (50730 :> S({10}, 1)) @@ (50731 :> S({5}, 1)) @@ (50732 :> S({5}, 1)) @@ (50733 :> S({4}, 1)) @@ (50734 :> S({5}, 1))
  @@ (50778 :> S({3}, 1)) @@ (50779 :> S({3}, 1)) @@ (50780 :> S({5}, 1)) @@ (50781 :> S({1}, 16)) @@ (50827 :> S({1, 2}, Free)) @@ (50828 :> S({7}, Free)) @@ (50829 :> S(I1, 4)) @@ (50830 :> S(I1, Fours))
  @@ (50964 :> S({10}, Mat)) @@ (50965 :> S({10}, Mat)) @@ (50970 :> S({4}, 1)) @@ (50973 :> S({1}, 16)) @@ (51041 :> S({12}, Free)) @@ (51044 :> S({10}, 1))
  @@ (37386 :> S({5}, 1)) @@ (33434 :> S({5}, 1)) @@ (33437 :> S({5}, 1)) @@ (36864 :> S({7}, 4)) @@ (34855 :> S({3}, Free))
Has(D, tag) == \E i \in 1..Len(D.ents) : D.ents[i].tag = tag
Ent(D, tag) == D.ents[CHOOSE i \in 1..Len(D.ents) : D.ents[i].tag = tag]
V(D, tag) == Ent(D, tag).v
One(D, tag, default) == IF Has(D, tag) THEN V(D, tag)[1] ELSE default
SppOf(D) == One(D, 277, 1)
\* colours of the file: planes of the mosaic, or samples per pixel of the raw image
Raws(R) == {i \in 1..Len(R.dirs) : R.dirs[i].role = "raw"}
Raw(R) == R.dirs[CHOOSE i \in Raws(R) : \A j \in Raws(R) : i <= j]
Colors(R) == LET D == Raw(R) IN IF One(D, 262, 0) = 32803 THEN (IF Has(D, 50710) THEN Ent(D, 50710).cnt ELSE 3) ELSE SppOf(D)
CountOk(R, D, e) ==
  LET n == Schema[e.tag].n IN
  CASE n > 0 -> e.cnt = n
    [] n = Free -> e.cnt >= 1
    [] n = Spp -> e.cnt = SppOf(D)
    [] n = Mat -> e.cnt = 3 * Colors(R)
    [] n = Cols -> e.cnt = Colors(R)
    [] n = Fours -> e.cnt % 4 = 0 /\ e.cnt > 0
    [] n = Pairs -> e.cnt % 2 = 0
    [] n = Text -> e.cnt >= 1 /\ e.last = 0
Typed(R, D) == \A i \in 1..Len(D.ents) : LET e == D.ents[i] IN e.typ \in 1..12 /\ e.cnt > 0 /\ (e.tag \in DOMAIN Schema => e.typ \in Schema[e.tag].t /\ CountOk(R, D, e))
Ascending(D) == \A i \in 2..Len(D.ents) : D.ents[i - 1].tag < D.ents[i].tag
\* structure of the file
Ranges(R) == \A i \in 1..Len(R.ranges) : R.ranges[i][1] >= 0 /\ R.ranges[i][1] <= R.ranges[i][2] /\ R.ranges[i][2] <= R.size
Apart(R) == \A i \in 2..Len(R.ranges) : R.ranges[i - 1][2] <= R.ranges[i][1]
WordAligned(R) == \A i \in 1..Len(R.dirs) : R.dirs[i].off % 2 = 0 /\ \A j \in 1..Len(R.dirs[i].ents) : R.dirs[i].ents[j].pos % 2 = 0
\* images
CeilDiv(a, b) == (a + b - 1) \div b
W(D) == V(D, 256)[1]
H(D) == V(D, 257)[1]
Image(D) == D.role \in {"raw", "preview", "thumbnail"}
Needs(D, tags) == \A t \in tags : Has(D, t)
Uniform(v) == \A i \in 1..Len(v) : v[i] = v[1]
Bits(D) == V(D, 258)[1]
Tiled(D) == Has(D, 324)
Blocks(D) == IF Tiled(D) THEN CeilDiv(W(D), V(D, 322)[1]) * CeilDiv(H(D), V(D, 323)[1]) ELSE CeilDiv(H(D), IF One(D, 278, H(D)) > H(D) THEN H(D) ELSE One(D, 278, H(D)))
BlockRows(D, k) == IF Tiled(D) THEN V(D, 323)[1] ELSE LET n == One(D, 278, H(D)) rest == H(D) - (k - 1) * n IN IF rest < n THEN rest ELSE n
BlockCols(D) == IF Tiled(D) THEN V(D, 322)[1] ELSE W(D)
ImageTags(D) == Needs(D, {256, 257, 258, 259, 262, 277}) /\ W(D) > 0 /\ H(D) > 0 /\ Uniform(V(D, 258)) /\ (Has(D, 339) => Uniform(V(D, 339))) /\ One(D, 284, 1) = 1
OneStorage(D) == (Has(D, 273) /\ Has(D, 279) /\ ~Has(D, 324) /\ ~Has(D, 325)) \/ (Needs(D, {322, 323, 324, 325}) /\ ~Has(D, 273) /\ ~Has(D, 279))
TileSize(D) == Tiled(D) => V(D, 322)[1] > 0 /\ V(D, 323)[1] > 0 /\ V(D, 322)[1] % 16 = 0 /\ V(D, 323)[1] % 16 = 0
BlockCount(D) == Len(D.blocks) = Blocks(D) /\ (Tiled(D) => Ent(D, 324).cnt = Blocks(D) /\ Ent(D, 325).cnt = Blocks(D)) /\ (~Tiled(D) => Ent(D, 273).cnt = Blocks(D) /\ Ent(D, 279).cnt = Blocks(D))
BlockOk(D, k) ==
  LET b == D.blocks[k] c == V(D, 259)[1] IN
  CASE c = 1 -> b.len = BlockRows(D, k) * CeilDiv(BlockCols(D) * SppOf(D) * Bits(D), 8)
    [] c = 7 /\ D.role = "raw" -> b.kind = "ljpeg" /\ b.w * b.comps * b.h = BlockCols(D) * SppOf(D) * BlockRows(D, k) /\ b.prec = Bits(D)
    [] c = 7 -> b.kind = "jpeg" /\ b.w = BlockCols(D) /\ b.h = BlockRows(D, k) /\ b.comps = SppOf(D) /\ b.prec = 8
    [] OTHER -> c \in {5, 8}
BlocksOk(D) == \A k \in 1..Len(D.blocks) : BlockOk(D, k)
\* the raw image
RawDirs(R) == Cardinality(Raws(R)) = 1
Photometric(D) == CASE V(D, 262)[1] = 32803 -> SppOf(D) = 1 [] V(D, 262)[1] = 34892 -> SppOf(D) \in 1..4 [] OTHER -> V(D, 262)[1] = 1 /\ SppOf(D) = 1
Photo(D) == V(D, 262)[1]
Mosaic(D) == Photo(D) = 32803 =>
  /\ Needs(D, {33421, 33422, 50710})
  /\ Ent(D, 33422).cnt = V(D, 33421)[1] * V(D, 33421)[2]
  /\ {V(D, 33422)[i] : i \in 1..Len(V(D, 33422))} = {V(D, 50710)[i] : i \in 1..Len(V(D, 50710))}
  /\ Cardinality({V(D, 50710)[i] : i \in 1..Len(V(D, 50710))}) = Len(V(D, 50710))
Float(D) == One(D, 339, 1) = 3
RawBits(D) == IF Float(D) THEN Bits(D) \in {16, 24, 32} ELSE Bits(D) \in 8..16
White(D) == Has(D, 50717) => \A i \in 1..Len(V(D, 50717)) : V(D, 50717)[i] >= 1 /\ (Float(D) \/ V(D, 50717)[i] <= 2 ^ Bits(D) - 1)
RepRows(D) == IF Has(D, 50713) THEN V(D, 50713)[1] ELSE 1
RepCols(D) == IF Has(D, 50713) THEN V(D, 50713)[2] ELSE 1
BlackOk(D) == RepRows(D) >= 1 /\ RepCols(D) >= 1 /\ (Has(D, 50714) => Ent(D, 50714).cnt = RepRows(D) * RepCols(D) * SppOf(D)) /\ (Has(D, 50714) /\ Ent(D, 50714).typ = 5 => \A i \in 1..Ent(D, 50714).cnt : V(D, 50714)[2 * i] # 0)
Active(D) == IF Has(D, 50829) THEN V(D, 50829) ELSE <<0, 0, H(D), W(D)>>
ActiveOk(D) == LET a == Active(D) IN a[1] >= 0 /\ a[2] >= 0 /\ a[1] < a[3] /\ a[2] < a[4] /\ a[3] <= H(D) /\ a[4] <= W(D)
MaskedOk(D) == Has(D, 50830) => LET m == V(D, 50830) IN \A k \in 0..((Len(m) \div 4) - 1) : m[4 * k + 1] <= m[4 * k + 3] /\ m[4 * k + 2] <= m[4 * k + 4] /\ m[4 * k + 3] <= H(D) /\ m[4 * k + 4] <= W(D)
\* the crop is given in whole pixels or as rationals (flattened)
Cr(D, tag, k) == LET e == Ent(D, tag) IN IF e.typ = 5 THEN (e.v[2 * k - 1] \div e.v[2 * k]) ELSE e.v[k]
CropOk(D) ==
  /\ Has(D, 50719) <=> Has(D, 50720)
  /\ Has(D, 50720) => LET a == Active(D) IN Cr(D, 50720, 1) >= 1 /\ Cr(D, 50720, 2) >= 1 /\ Cr(D, 50719, 1) + Cr(D, 50720, 1) <= a[4] - a[2] /\ Cr(D, 50719, 2) + Cr(D, 50720, 2) <= a[3] - a[1]
DeltasOk(D) == LET a == Active(D) IN (Has(D, 50715) => Ent(D, 50715).cnt = a[4] - a[2]) /\ (Has(D, 50716) => Ent(D, 50716).cnt = a[3] - a[1])
Positive(e) == \A k \in 1..(Len(e.v) \div 2) : e.v[2 * k - 1] > 0 /\ e.v[2 * k] > 0
ScaleOk(D) == (Has(D, 50718) => Positive(Ent(D, 50718))) /\ (Has(D, 50780) => Positive(Ent(D, 50780)))
\* the root
Root(R) == R.dirs[1]
Leq(a, b) == \E k \in 0..4 : (\A i \in 1..k : a[i] = b[i]) /\ (k = 4 \/ a[k + 1] < b[k + 1])
Version(R) == LET D == Root(R) IN Needs(D, {50706, 50707}) /\ V(D, 50706)[1] = 1 /\ Leq(V(D, 50707), V(D, 50706))
Backward(R) == LET D == Raw(R) IN (Float(D) \/ One(D, 259, 1) = 8) => Leq(<<1, 4, 0, 0>>, V(Root(R), 50707))
Named(R) == Needs(Root(R), {50708, 271, 272}) /\ (R.whole \/ Has(Root(R), 274) => Needs(Root(R), {274}) /\ V(Root(R), 274)[1] \in 1..8)
Neutral(R) == Has(Root(R), 50728) => (Ent(Root(R), 50728).typ = 5 => Positive(Ent(Root(R), 50728)))
NotBoth(R) == ~(Has(Root(R), 50728) /\ Has(Root(R), 50729))
Illum(R) == (Has(Root(R), 50722) => Has(Root(R), 50721) /\ Has(Root(R), 50779) /\ Has(Root(R), 50778))
Sub(R) == Root(R).next = 0 /\ \A i \in 1..Len(R.dirs) : R.dirs[i].next = 0
Kinds(R) == \A i \in 1..Len(R.dirs) : LET D == R.dirs[i] IN CASE D.role = "raw" -> One(D, 254, 0) = 0 [] D.role \in {"preview", "thumbnail"} -> One(D, 254, 0) \in {1, 65537} [] OTHER -> TRUE
Previews(D) == D.role \in {"preview", "thumbnail"} => (Photo(D) \in {1, 2, 6}) /\ Bits(D) = 8 /\ (Photo(D) = 1 => SppOf(D) = 1) /\ (Photo(D) # 1 => SppOf(D) = 3)
Original(R) == LET D == Root(R) IN (Has(D, 50828) => Has(D, 50827)) /\ (Has(D, 50973) => Has(D, 50828))
ForAll(R, P(_)) == \A i \in 1..Len(R.dirs) : Image(R.dirs[i]) => P(R.dirs[i])
Why(R) ==
  CASE R.problem # "" -> R.problem
    [] ~Ranges(R) -> "data outside of the file"
    [] ~Apart(R) -> "overlapping data"
    [] ~WordAligned(R) -> "odd offset"
    [] \E i \in 1..Len(R.dirs) : ~Ascending(R.dirs[i]) -> "order of tags"
    [] ~Sub(R) -> "unexpected chain of directories"
    [] ~RawDirs(R) -> "not exactly one raw image"
    [] \E i \in 1..Len(R.dirs) : ~Typed(R, R.dirs[i]) -> "type or count of a tag"
    [] ~ForAll(R, ImageTags) -> "image tags"
    [] ~ForAll(R, OneStorage) -> "strips or tiles"
    [] ~ForAll(R, TileSize) -> "tile size"
    [] ~ForAll(R, BlockCount) -> "number of data blocks"
    [] ~ForAll(R, BlocksOk) -> "contents of a data block"
    [] ~ForAll(R, Previews) -> "preview"
    [] ~Kinds(R) -> "kind of image"
    [] ~Photometric(Raw(R)) -> "photometric interpretation"
    [] ~Mosaic(Raw(R)) -> "mosaic"
    [] ~RawBits(Raw(R)) -> "bits per sample"
    [] ~White(Raw(R)) -> "white level"
    [] ~BlackOk(Raw(R)) -> "black level"
    [] ~ActiveOk(Raw(R)) -> "active area"
    [] ~MaskedOk(Raw(R)) -> "masked areas"
    [] ~CropOk(Raw(R)) -> "crop"
    [] ~DeltasOk(Raw(R)) -> "black level deltas"
    [] ~ScaleOk(Raw(R)) -> "scale"
    [] ~Version(R) -> "version"
    [] ~Backward(R) -> "backward version"
    [] ~Named(R) -> "camera name or orientation"
    [] ~Neutral(R) -> "neutral"
    [] ~NotBoth(R) -> "two white balances"
    [] ~Illum(R) -> "illuminant"
    [] ~Original(R) -> "original file"
    [] OTHER -> ""
Init == r \in 1..Len(Recs)
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
Emit == LET w == Why(Recs[r]) IN w # "" => PrintT(ToJson([reject |-> r, why |-> w]))
=============================================================================
