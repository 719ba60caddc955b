------------------------------- MODULE MCTiff -------------------------------
(* A writer that places the parts of a small tree (directories, long values, data   *)
(* blocks) anywhere in any order, in either byte order, with stored offsets shifted  *)
(* by a correction. Whatever it does, the finished file denotes the tree.            *)
EXTENDS Tiff, Json
CONSTANTS Family, Corrs, Gaps
Pattern(t, c, p) ==
  LET n == Sizes[t] * c u == Unit(t) IN
  IF t = 2 THEN [i \in 1..n |-> IF i = n THEN 0 ELSE CASE p = "count" -> 65 + (i % 26) [] p = "ones" -> 126 [] p = "zero" -> 32 [] p = "high" -> IF i = 1 THEN 48 ELSE 122]
  ELSE CASE p = "zero" -> [i \in 1..n |-> 0]
         [] p = "ones" -> [i \in 1..n |-> 255]
         [] p = "high" -> [i \in 1..n |-> IF (i - 1) % u = 0 THEN 128 ELSE 0]
         [] p = "alt" -> [i \in 1..n |-> IF ((i - 1) \div u) % 2 = 0 THEN 255 ELSE 0]
         [] p = "count" -> [i \in 1..n |-> (i * 29 + 11) % 256]
E(tag, t, c, p) == [tag |-> tag, typ |-> t, cnt |-> c, b |-> Pattern(t, c, p)]
D(ent, sub, data) == [ent |-> ent, sub |-> sub, data |-> data]
S(tag, dirs) == [tag |-> tag, dirs |-> dirs]
Blob(n, x) == [i \in 1..n |-> (i * 53 + x) % 256]
Tree(dirs, roots) == [dirs |-> dirs, roots |-> roots]
Leaf(x) == D(<<E(256, 3, 1, x)>>, <<>>, <<>>)
One == {Tree(<<D(<<E(tag, t, c, p)>>, <<>>, <<>>)>>, <<1>>) : tag \in {1, 65000}, t \in 1..12, c \in {1, 2, 3, 4, 5, 8, 9}, p \in {"zero", "ones", "high", "count"}}
       \cup {Tree(<<D(<<E(271, t, c, "alt")>>, <<>>, <<>>)>>, <<1>>) : t \in (1..12) \ {2}, c \in {2, 3, 4, 5}}
Two == {Tree(<<D(<<E(t1, a, c, "count"), E(t2, b, d, "ones")>>, <<>>, <<>>)>>, <<1>>) : t1 \in {255, 300}, t2 \in {301, 40000}, a \in {1, 3, 5, 8}, b \in {2, 4, 12}, c \in {1, 2, 5}, d \in {1, 3}}
Subs == {Tree(<<D(<<E(254, 4, 1, "zero"), E(271, 2, 7, "count")>>, <<S(tag, <<2>>)>>, <<>>), Leaf("count")>>, <<1>>) : tag \in {330, 34665, 34853, 50000}}
   \cup {Tree(<<D(<<E(271, 2, 6, "count")>>, <<S(330, <<2, 3>>)>>, <<>>), Leaf("ones"), D(<<E(33434, 5, 1, "count")>>, <<>>, <<>>)>>, <<1>>),
         Tree(<<D(<<E(272, 3, 3, "high")>>, <<S(330, <<2>>), S(34665, <<3>>)>>, <<>>), Leaf("count"), Leaf("high")>>, <<1>>)}
Blobs == {Tree(<<D(<<E(256, 3, 1, "count")>>, <<>>, <<Blob(n, 7)>>)>>, <<1>>) : n \in {1, 2, 3, 4, 5, 9}}
   \cup {Tree(<<D(<<E(256, 3, 1, "count")>>, <<>>, <<Blob(n, 7), Blob(m, 91)>>)>>, <<1>>) : n \in {1, 3, 4}, m \in {1, 6}}
   \cup {Tree(<<D(<<E(271, 2, 5, "count")>>, <<S(330, <<2>>)>>, <<Blob(5, 1)>>), D(<<E(259, 3, 1, "ones")>>, <<>>, <<Blob(3, 2)>>)>>, <<1>>)}
Chains == {Tree(<<Leaf("count"), Leaf("ones")>>, <<1, 2>>), Tree(<<Leaf("count"), D(<<E(271, 2, 9, "count")>>, <<>>, <<>>), Leaf("zero")>>, <<1, 2, 3>>),
           Tree(<<D(<<E(271, 2, 5, "high")>>, <<S(330, <<3>>)>>, <<>>), D(<<E(270, 12, 1, "count")>>, <<S(34665, <<4>>)>>, <<>>), Leaf("ones"), Leaf("high")>>, <<1, 2>>)}
Trees == CASE Family = "one" -> One [] Family = "two" -> Two [] Family = "subs" -> Subs [] Family = "blobs" -> Blobs [] Family = "chains" -> Chains
VARIABLES tree, le, corr, styp, place, free
vars == <<tree, le, corr, styp, place, free>>
Ds == tree.dirs
\* entries of directory k that point at something: filled in when everything has its place
SubEnt(k) == {[tag |-> Ds[k].sub[i].tag, typ |-> styp, cnt |-> Len(Ds[k].sub[i].dirs), what |-> "sub", i |-> i] : i \in 1..Len(Ds[k].sub)}
DataEnt(k) == IF Ds[k].data = <<>> THEN {} ELSE {[tag |-> t, typ |-> 4, cnt |-> Len(Ds[k].data), what |-> IF t = Strips THEN "offs" ELSE "lens", i |-> 0] : t \in {Strips, Counts}}
PlainEnt(k) == {[tag |-> Ds[k].ent[i].tag, typ |-> Ds[k].ent[i].typ, cnt |-> Ds[k].ent[i].cnt, what |-> "plain", i |-> i] : i \in 1..Len(Ds[k].ent)}
Ents(k) == SubEnt(k) \cup DataEnt(k) \cup PlainEnt(k)
Size(e) == Sizes[e.typ] * e.cnt
Items == {<<"dir", k, 0>> : k \in 1..Len(Ds)}
   \cup UNION {{<<"val", k, e.tag>> : e \in {x \in Ents(k) : Size(x) > 4}} : k \in 1..Len(Ds)}
   \cup UNION {{<<"blob", k, j>> : j \in 1..Len(Ds[k].data)} : k \in 1..Len(Ds)}
EntOf(k, tag) == CHOOSE e \in Ents(k) : e.tag = tag
ItemLen(x) == CASE x[1] = "dir" -> 6 + 12 * Cardinality(Ents(x[2])) [] x[1] = "val" -> Size(EntOf(x[2], x[3])) [] x[1] = "blob" -> Len(Ds[x[2]].data[x[3]])
Init == tree \in Trees /\ le \in BOOLEAN /\ corr \in {IF c > 1000 THEN 1000 - c ELSE c : c \in Corrs} (* 1016 stands for -16 *) /\ styp \in (IF Family \in {"subs", "chains"} THEN {4, 13} ELSE {4}) /\ place = [x \in {} |-> 0] /\ free = 8
PlaceItem(x, gap) ==
  LET at == free + (free % 2) + gap IN
  /\ place' = (x :> at) @@ place /\ free' = at + ItemLen(x) /\ UNCHANGED <<tree, le, corr, styp>>
Next == \E x \in Items \ DOMAIN place : \E gap \in Gaps : PlaceItem(x, gap)
Spec == Init /\ [][Next]_vars
Done == DOMAIN place = Items
\* the bytes
Flat(ss) == LET RECURSIVE F(_) F(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o F(i + 1) IN F(1)
Canon(k, e) ==
  CASE e.what = "plain" -> Ds[k].ent[e.i].b
    [] e.what = "sub" -> Flat([j \in 1..e.cnt |-> B32(place[<<"dir", Ds[k].sub[e.i].dirs[j], 0>>] - corr)])
    [] e.what = "offs" -> Flat([j \in 1..e.cnt |-> B32(place[<<"blob", k, j>>])])
    [] e.what = "lens" -> Flat([j \in 1..e.cnt |-> B32(Len(Ds[k].data[j]))])
Stored(k, e) == Put(Canon(k, e), e.typ, le)
Pad4(b) == [i \in 1..4 |-> IF i <= Len(b) THEN b[i] ELSE 0]
RECURSIVE Sorted(_)
Sorted(es) == IF es = {} THEN <<>> ELSE LET m == CHOOSE e \in es : \A o \in es : e.tag <= o.tag IN <<m>> \o Sorted(es \ {m})
N16(n) == Put(B16(n), 3, le)
N32(n) == Put(B32(n), 4, le)
NextRoot(k) == LET i == CHOOSE i \in 0..Len(tree.roots) : IF i = 0 THEN \A j \in 1..Len(tree.roots) : tree.roots[j] # k ELSE tree.roots[i] = k
               IN IF i = 0 \/ i = Len(tree.roots) THEN 0 ELSE place[<<"dir", tree.roots[i + 1], 0>>] - corr
DirBytes(k) ==
  LET es == Sorted(Ents(k)) IN
  N16(Len(es)) \o Flat([i \in 1..Len(es) |-> N16(es[i].tag) \o N16(es[i].typ) \o N32(es[i].cnt) \o (IF Size(es[i]) <= 4 THEN Pad4(Stored(k, es[i])) ELSE N32(place[<<"val", k, es[i].tag>>] - corr))])
  \o N32(NextRoot(k))
ItemBytes(x) == CASE x[1] = "dir" -> DirBytes(x[2]) [] x[1] = "val" -> Stored(x[2], EntOf(x[2], x[3])) [] x[1] = "blob" -> Ds[x[2]].data[x[3]]
RECURSIVE Fill(_, _)
Fill(f, left) ==
  IF left = {} THEN f
  ELSE LET x == CHOOSE x \in left : \A y \in left : place[x] <= place[y]
       IN Fill(f \o [i \in 1..(place[x] - Len(f)) |-> 170] \o ItemBytes(x), left \ {x})
File == Fill((IF le THEN <<73, 73>> ELSE <<77, 77>>) \o N16(42) \o N32(place[<<"dir", tree.roots[1], 0>>] - corr), Items)
Meaning == Done => FileDenotes(File, corr, Ds, tree.roots)
Laid == Done => Disjoint(UNION {Used(File, corr, Ds, tree.roots[i], place[<<"dir", tree.roots[i], 0>>]) : i \in 1..Len(tree.roots)})
Emit == Done => PrintT(ToJson([tree |-> tree, le |-> le, corr |-> corr, file |-> File]))
=============================================================================
