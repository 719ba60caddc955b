------------------------------- MODULE MCBoxes -------------------------------
(* A file of nested boxes (ISO base media, as in CR3) and its reader: a position and   *)
(* a stack of box ends. Boxes have 32 or 64 bit sizes, size 0 (to the end of the file), *)
(* kinds the reader doesn't know; sizes and counts may be damaged, the file may be cut. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Family, Wide
Huge == 2000000000
Containers == {"moov", "trak", "mdia", "minf", "stbl", "stsd"}
Uuids == {"uuidu", "uuidx"}
Payload(k) == CASE k = "ftyp" -> 16 [] k = "mvhd0" -> 24 [] k = "mvhd1" -> 32 [] k = "tkhd" -> 8 [] k = "mdhd0" -> 24 [] k = "mdhd1" -> 36
                [] k = "hdlr" -> 8 [] k = "vmhd" -> 12 [] k = "dinf" -> 8 [] k = "stts" -> 16 [] k = "stsc" -> 32 [] k = "stsz" -> 32
                [] k = "stszu" -> 12 [] k = "co64" -> 32 [] k = "mdat" -> 40 [] k = "stsd" -> 8 [] k = "free" -> 5 [] k = "uuidu" -> 6 [] k = "uuidx" -> 9
                [] OTHER -> 0
\* bytes of the payload that are interpreted
Need(k) == IF k \in {"free", "uuidu", "uuidx", "mdat", "dinf"} THEN 0
           ELSE IF k = "mvhd0" THEN 20 ELSE IF k = "mdhd0" THEN 22 ELSE IF k = "mdhd1" THEN 34
           ELSE IF k \in {"tkhd", "hdlr"} THEN 4 ELSE Payload(k)
Role(k) == CASE k \in {"mvhd0", "mvhd1"} -> "mvhd" [] k \in {"mdhd0", "mdhd1"} -> "mdhd" [] k \in {"stsz", "stszu"} -> "stsz" [] OTHER -> k
Required(k) == CASE k = "file" -> {"ftyp", "moov", "mdat"} [] k = "moov" -> {"mvhd"} [] k = "trak" -> {"tkhd", "mdia"} [] k = "mdia" -> {"mdhd", "hdlr", "minf"}
                 [] k = "minf" -> {"dinf", "stbl"} [] k = "stbl" -> {"stsd", "stts", "stsc", "stsz"} [] OTHER -> {}
\* what a container is expected to hold besides boxes of other kinds, which are passed over
Allowed(k) == (Required(k) \cup (CASE k = "moov" -> {"trak"} [] k = "minf" -> {"vmhd"} [] k = "stbl" -> {"co64"} [] OTHER -> {})) \cup {"free", "uuidu", "uuidx"}
B(k, f, kids) == [k |-> k, f |-> f, kids |-> kids]
L(k) == B(k, 32, <<>>)
Ls(ks) == [i \in 1..Len(ks) |-> L(ks[i])]
Stbl == B("stbl", 32, <<B("stsd", 32, <<L("free")>>)>> \o Ls(<<"stts", "stsc", "stsz", "co64">>))
Minf == B("minf", 32, <<L("vmhd"), L("dinf"), Stbl>>)
Mdia == B("mdia", 32, <<L("mdhd0"), L("hdlr"), Minf>>)
Trak == B("trak", 32, <<L("tkhd"), Mdia>>)
Moov == B("moov", 32, <<L("mvhd0"), Trak>>)
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Distinct(s, rep) == \A i, j \in 1..Len(s) : i # j => (s[i] # s[j] \/ s[i] \in rep)
\* one way to write every kind inside of a permuted container
Put(k, f) == CASE k = "moov" -> [Moov EXCEPT !.f = f] [] k = "trak" -> [Trak EXCEPT !.f = f] [] k = "mdia" -> [Mdia EXCEPT !.f = f]
               [] k = "minf" -> [Minf EXCEPT !.f = f] [] k = "stbl" -> [Stbl EXCEPT !.f = f] [] k = "stsd" -> B("stsd", f, <<L("free")>>) [] OTHER -> B(k, f, <<>>)
Roots(moov) == <<L("ftyp"), moov, L("mdat")>>
Perms(S, n) == {s \in Seqs(S, n) : Distinct(s, {"free"}) /\ ~({"mvhd0", "mvhd1"} \subseteq {s[i] : i \in 1..Len(s)}) /\ ~({"mdhd0", "mdhd1"} \subseteq {s[i] : i \in 1..Len(s)}) /\ ~({"stsz", "stszu"} \subseteq {s[i] : i \in 1..Len(s)})}
In(c, kids) ==
  LET x == B(c, 32, kids) IN
  CASE c = "stsd" -> Roots([Moov EXCEPT !.kids = <<L("mvhd1"), [Trak EXCEPT !.kids = <<L("tkhd"), [Mdia EXCEPT !.kids = <<L("mdhd1"), L("hdlr"), [Minf EXCEPT !.kids = <<L("dinf"), [Stbl EXCEPT !.kids = <<x>> \o Ls(<<"stts", "stsc", "stszu", "co64">>)]>>]>>]>>]>>])
    [] c = "stbl" -> Roots([Moov EXCEPT !.kids = <<L("mvhd0"), [Trak EXCEPT !.kids = <<L("tkhd"), [Mdia EXCEPT !.kids = <<L("mdhd0"), L("hdlr"), [Minf EXCEPT !.kids = <<L("dinf"), x>>]>>]>>]>>])
    [] c = "minf" -> Roots([Moov EXCEPT !.kids = <<L("mvhd0"), [Trak EXCEPT !.kids = <<L("tkhd"), [Mdia EXCEPT !.kids = <<L("mdhd0"), L("hdlr"), x>>]>>]>>])
    [] c = "mdia" -> Roots([Moov EXCEPT !.kids = <<L("mvhd0"), [Trak EXCEPT !.kids = <<L("tkhd"), x>>]>>])
    [] c = "trak" -> Roots([Moov EXCEPT !.kids = <<L("mvhd0"), x>>])
    [] OTHER -> Roots(x)
Shapes(c, S, n, forms) == {In(c, [i \in 1..Len(s) |-> Put(s[i], f)]) : s \in Perms(S, n), f \in forms}
Canon == {Roots(Moov), <<L("ftyp"), L("free"), L("mdat"), [Moov EXCEPT !.kids = <<L("uuidu"), L("mvhd1"), Trak, [Trak EXCEPT !.f = 64]>>]>>}
Tops == LET S == {"ftyp", "moov", "mdat", "free", "uuidu", "uuidx"} IN
        {[i \in 1..Len(s) |-> Put(s[i], IF i = Len(s) /\ z THEN 0 ELSE f[i])] :
           s \in {s \in Perms(S, 4) : Len(s) >= 2}, f \in (IF Wide THEN [1..4 -> {32, 64}] ELSE {<<32, 32, 32, 32>>, <<64, 32, 64, 32>>, <<32, 64, 64, 64>>}), z \in BOOLEAN}
Files == CASE Family = "top" -> Tops
           [] Family = "nest" -> Shapes("moov", {"mvhd0", "mvhd1", "trak", "free", "uuidu"}, IF Wide THEN 4 ELSE 3, {32, 64}) \cup Shapes("trak", {"tkhd", "mdia", "free", "uuidu"}, 4, {32, 64})
                                  \cup Shapes("mdia", {"mdhd0", "mdhd1", "hdlr", "minf", "free"}, 4, {32, 64}) \cup Shapes("minf", {"vmhd", "dinf", "stbl", "free"}, 4, {32, 64})
                                  \cup Shapes("stsd", {"free", "uuidu"}, 2, {32, 64}) \cup Shapes("stbl", {"stsd", "stts", "stsc", "stsz", "stszu", "co64", "free"}, IF Wide THEN 6 ELSE 5, {32})
           [] OTHER -> Canon
---- \* layout
Hdr(n) == (IF n.f = 64 THEN 16 ELSE 8) + (IF n.k \in Uuids THEN 16 ELSE 0)
RECURSIVE Size(_), Sum(_), Flat(_, _, _)
Size(n) == Hdr(n) + Payload(n.k) + Sum(n.kids)
Sum(s) == IF s = <<>> THEN 0 ELSE Size(Head(s)) + Sum(Tail(s))
\* boxes in file order with their offsets
Flat(s, off, depth) ==
  IF s = <<>> THEN <<>>
  ELSE LET n == Head(s) IN <<[k |-> n.k, f |-> n.f, off |-> off, hdr |-> Hdr(n), size |-> Size(n), depth |-> depth]>>
                            \o Flat(n.kids, off + Hdr(n) + Payload(n.k), depth + 1) \o Flat(Tail(s), off + Size(n), depth)
Faults(fl) == CASE Family = "size" ->
                    {[box |-> i, how |-> "size", v |-> v] : i \in 1..Len(fl), v \in {0, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, Huge}}
                    \cup {[box |-> i, how |-> "delta", v |-> v] : i \in 1..Len(fl), v \in {0, 1, 2, 3, 5, 8, 12, 16}}   \* size + v - 4
                    \cup {[box |-> i, how |-> "count", v |-> Huge] : i \in {j \in 1..Len(fl) : fl[j].k \in {"stts", "stsc", "stsz", "co64"}}}
                [] Family = "cut" -> {[box |-> 0, how |-> "cut", v |-> v] : v \in 0..(fl[Len(fl)].off + fl[Len(fl)].size)}
                [] OTHER -> {[box |-> 0, how |-> "none", v |-> 0]}
VARIABLES boxes, fault, pos, stack, out, res
vars == <<boxes, fault, pos, stack, out, res>>
Total == boxes[Len(boxes)].off + boxes[Len(boxes)].size
RECURSIVE Last(_, _)
Last(fl, i) == IF i > Len(fl) THEN 0 ELSE LET e == fl[i].off + fl[i].size m == Last(fl, i + 1) IN IF e > m THEN e ELSE m
End0 == Last(boxes, 1)
Eof == IF fault.how = "cut" THEN (IF fault.v < End0 THEN fault.v ELSE End0) ELSE End0
Init == /\ \E f \in Files : boxes = Flat(f, 0, 0)
        /\ fault \in Faults(boxes)
        /\ pos = 0 /\ stack = <<[k |-> "file", box |-> 0, end |-> Huge, has |-> {}]>> /\ out = <<>> /\ res = "run"
Declared(i) ==
  IF fault.box = i /\ fault.how = "size" THEN fault.v
  ELSE IF fault.box = i /\ fault.how = "delta" THEN boxes[i].size + fault.v - 4
  ELSE IF boxes[i].f = 0 THEN 0 ELSE boxes[i].size
Top == stack[Len(stack)]
Stop(r) == res' = r /\ UNCHANGED <<boxes, fault, pos, stack, out>>
AtEnd == IF Len(stack) = 1 THEN pos >= Eof ELSE pos >= Top.end
Up ==
  IF ~(Required(Top.k) \subseteq Top.has) THEN Stop("err")
  ELSE IF Len(stack) = 1 THEN Stop("ok")
  ELSE /\ pos' = Top.end /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
       /\ res' = IF pos > Top.end THEN "any" ELSE "run"
       /\ UNCHANGED <<boxes, fault, out>>
Here == {i \in 1..Len(boxes) : boxes[i].off = pos}
Down ==
  IF Here = {} THEN Stop(IF pos >= Eof THEN "err" ELSE "any")
  ELSE LET i == CHOOSE i \in Here : \A j \in Here : i <= j
           b == boxes[i]
           size == IF Declared(i) = 0 /\ b.f # 64 THEN Eof - pos ELSE Declared(i)
           end == pos + size
           cont == b.k \in Containers
           need == IF cont THEN Payload(b.k) ELSE Need(b.k)
       IN IF Declared(i) = 0 /\ b.f = 64 THEN Stop("any")
          ELSE IF pos + b.hdr > Eof \/ size < b.hdr THEN Stop("err")
          ELSE IF pos + b.hdr + need > Eof THEN Stop("err")
          ELSE IF fault.box = i /\ fault.how = "count" THEN Stop("err")
          ELSE IF end > (IF Len(stack) = 1 THEN Eof ELSE Top.end) THEN Stop("any")
          ELSE IF b.hdr + need > size \/ Role(b.k) \notin Allowed(Top.k) THEN Stop("any")
          ELSE /\ out' = Append(out, [box |-> i, size |-> size, parent |-> Top.box])
               /\ LET st == [stack EXCEPT ![Len(stack)].has = @ \cup {Role(b.k)}] IN
                  IF cont THEN stack' = Append(st, [k |-> b.k, box |-> i, end |-> end, has |-> {}]) /\ pos' = pos + b.hdr + Payload(b.k)
                  ELSE stack' = st /\ pos' = end
               /\ UNCHANGED <<boxes, fault, res>>
Next == res = "run" /\ IF AtEnd THEN Up ELSE Down
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(res # "run")
\* every step of the reader leaves a box or moves on
Progress == [][pos' > pos \/ Len(stack') < Len(stack) \/ res' # "run"]_vars
\* without damage the reader has seen every box, in file order, below its parent
Whole == res = "ok" /\ fault.how \in {"none"} /\ (\A i \in 1..Len(boxes) : boxes[i].f # 0) =>
           /\ [j \in 1..Len(out) |-> out[j].box] = [j \in 1..Len(boxes) |-> j]
           /\ \A j \in 1..Len(out) : out[j].size = boxes[j].size /\ (out[j].parent = 0 \/ boxes[out[j].parent].depth + 1 = boxes[j].depth)
Emit == res # "run" => PrintT(ToJson([boxes |-> boxes, fault |-> fault, out |-> out, res |-> res, eof |-> Eof]))
=============================================================================
