-------------------------------- MODULE Tiff --------------------------------
(* The meaning of a TIFF structure: which tree of directories a sequence of bytes    *)
(* denotes. A tree is a sequence of directories; a directory has entries (tag, type, *)
(* count, value bytes most significant first), sub directories by tag, data blocks.   *)
(* Dirs[1] is the first root.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sizes == <<1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8, 4>>   (* 13: offset of a directory *)
Unit(t) == IF t \in {5, 10} THEN 4 ELSE Sizes[t]
\* bytes as stored <-> bytes of every number most significant first (its own inverse)
Swap(b, t, le) ==
  LET u == Unit(t) IN
  IF ~le \/ u = 1 THEN b ELSE [i \in 1..Len(b) |-> b[((i - 1) \div u) * u + (u - 1 - ((i - 1) % u)) + 1]]
B16(n) == <<n \div 256, n % 256>>
B32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Put(b, t, le) == Swap(b, t, le)
Num16(f, at, le) == IF le THEN f[at + 1] + 256 * f[at + 2] ELSE f[at + 2] + 256 * f[at + 1]
\* numbers of 2^31 and more are outside of any file here: -1
Num32(f, at, le) ==
  LET b == Swap(SubSeq(f, at + 1, at + 4), 4, le) IN IF b[1] > 127 THEN -1 ELSE b[1] * 16777216 + b[2] * 65536 + b[3] * 256 + b[4]
In(f, at, n) == at >= 0 /\ n >= 0 /\ at + n <= Len(f)

Little(f) == f[1] = 73
Header(f) == Len(f) >= 8 /\ ((f[1] = 73 /\ f[2] = 73) \/ (f[1] = 77 /\ f[2] = 77)) /\ Num16(f, 2, Little(f)) = 42
\* an entry of a directory: where its value is, and the value; corr is added to every stored offset
EntTag(f, at) == Num16(f, at, Little(f))
EntTyp(f, at) == Num16(f, at + 2, Little(f))
EntCnt(f, at) == Num32(f, at + 4, Little(f))
EntLen(f, at) == Sizes[EntTyp(f, at)] * EntCnt(f, at)
EntPos(f, at, corr) == IF EntLen(f, at) <= 4 THEN at + 8 ELSE Num32(f, at + 8, Little(f)) + corr
EntVal(f, at, corr) == Swap(SubSeq(f, EntPos(f, at, corr) + 1, EntPos(f, at, corr) + EntLen(f, at)), EntTyp(f, at), Little(f))
N(f, at) == Num16(f, at, Little(f))
EntAt(at, i) == at + 2 + 12 * (i - 1)
DirLen(f, at) == 2 + 12 * N(f, at) + 4
NextOf(f, at, corr) == LET x == Num32(f, at + 2 + 12 * N(f, at), Little(f)) IN IF x = 0 THEN 0 ELSE x + corr
Val32(b, k) == Num32(b, 4 * (k - 1), FALSE)

\* the directory at `at` can be read
DirOk(f, at, corr) ==
  /\ In(f, at, 2) /\ N(f, at) > 0 /\ In(f, at, DirLen(f, at))
  /\ \A i \in 1..N(f, at) :
       LET x == EntAt(at, i) IN
       EntTyp(f, x) \in 1..13 /\ EntCnt(f, x) > 0 /\ In(f, EntPos(f, x, corr), EntLen(f, x))
Ascending(f, at) == \A i \in 2..N(f, at) : EntTag(f, EntAt(at, i - 1)) < EntTag(f, EntAt(at, i))
Find(f, at, tag) == LET s == {i \in 1..N(f, at) : EntTag(f, EntAt(at, i)) = tag} IN IF s = {} THEN 0 ELSE EntAt(at, CHOOSE i \in s : TRUE)

Strips == 273
Counts == 279
TagsOf(d) ==
  {d.ent[i].tag : i \in 1..Len(d.ent)} \cup {d.sub[i].tag : i \in 1..Len(d.sub)} \cup (IF d.data = <<>> THEN {} ELSE {Strips, Counts})

\* the bytes at `at` denote directory k
RECURSIVE Denotes(_, _, _, _, _)
Denotes(f, corr, dirs, k, at) ==
  LET d == dirs[k] IN
  /\ DirOk(f, at, corr) /\ Ascending(f, at)
  /\ {EntTag(f, EntAt(at, i)) : i \in 1..N(f, at)} = TagsOf(d)
  /\ \A i \in 1..Len(d.ent) :
       LET x == Find(f, at, d.ent[i].tag) IN EntTyp(f, x) = d.ent[i].typ /\ EntCnt(f, x) = d.ent[i].cnt /\ EntVal(f, x, corr) = d.ent[i].b
  /\ \A i \in 1..Len(d.sub) :
       LET x == Find(f, at, d.sub[i].tag) v == EntVal(f, x, corr) IN
       /\ EntTyp(f, x) \in {4, 13} /\ EntCnt(f, x) = Len(d.sub[i].dirs)
       /\ \A j \in 1..Len(d.sub[i].dirs) : LET p == Val32(v, j) + corr IN Denotes(f, corr, dirs, d.sub[i].dirs[j], p) /\ NextOf(f, p, corr) = 0
  /\ d.data # <<>> =>
       LET o == Find(f, at, Strips) c == Find(f, at, Counts) IN
       /\ EntTyp(f, o) = 4 /\ EntTyp(f, c) = 4 /\ EntCnt(f, o) = Len(d.data) /\ EntCnt(f, c) = Len(d.data)
       /\ \A j \in 1..Len(d.data) :
            LET p == Val32(EntVal(f, o, corr), j) n == Val32(EntVal(f, c, corr), j)
            IN n = Len(d.data[j]) /\ In(f, p, n) /\ SubSeq(f, p + 1, p + n) = d.data[j]
RECURSIVE Chain(_, _, _, _, _)
Chain(f, corr, dirs, roots, at) ==
  IF roots = <<>> THEN at = 0
  ELSE at # 0 /\ Denotes(f, corr, dirs, Head(roots), at) /\ Chain(f, corr, dirs, Tail(roots), NextOf(f, at, corr))
FileDenotes(f, corr, dirs, roots) == Header(f) /\ Num32(f, 4, Little(f)) # 0 /\ Chain(f, corr, dirs, roots, Num32(f, 4, Little(f)) + corr)

\* the byte ranges a readable directory uses, <<from, behind>>
RECURSIVE Used(_, _, _, _, _)
Used(f, corr, dirs, k, at) ==
  LET d == dirs[k] IN
  {<<at, at + DirLen(f, at)>>}
  \cup {<<EntPos(f, EntAt(at, i), corr), EntPos(f, EntAt(at, i), corr) + EntLen(f, EntAt(at, i))>> : i \in {j \in 1..N(f, at) : EntLen(f, EntAt(at, j)) > 4}}
  \cup UNION {UNION {Used(f, corr, dirs, d.sub[i].dirs[j], Val32(EntVal(f, Find(f, at, d.sub[i].tag), corr), j) + corr) : j \in 1..Len(d.sub[i].dirs)} : i \in 1..Len(d.sub)}
  \cup (IF d.data = <<>> THEN {} ELSE {<<Val32(EntVal(f, Find(f, at, Strips), corr), j), Val32(EntVal(f, Find(f, at, Strips), corr), j) + Len(d.data[j])>> : j \in 1..Len(d.data)})
Apart(a, b) == a[2] <= b[1] \/ b[2] <= a[1]
Disjoint(S) == (\A a, b \in S : a = b \/ Apart(a, b)) /\ \A a \in S : a[1] >= 8
Even(S) == \A a \in S : a[1] % 2 = 0
=============================================================================
