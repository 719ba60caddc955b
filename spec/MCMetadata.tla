----------------------------- MODULE MCMetadata -----------------------------
(* The conversion as a sequence of steps - read the main directory, the Exif          *)
(* directory, the GPS directory, apply the options, write - over small sources; checked*)
(* against what a user relies on, and every source is replayed into the real code.     *)
EXTENDS Metadata, FiniteSets, TLC, Json
CONSTANTS Family, Most
VARIABLES src, opt, pc, known, out
vars == <<src, opt, pc, known, out>>
X(d, tag, type, b) == [d |-> d, tag |-> tag, type |-> type, b |-> b]
At(f, b) == {X(d, f.tag, f.type, b) : d \in IF f.from = "gps" THEN {"gps"} ELSE {"root", "exif"}}
\* values of a field by its kind
Values(f) ==
  LET one(v) == [i \in 1..Size(f.type) |-> IF i = 1 THEN v ELSE IF i = 5 THEN 3 ELSE 0]
      many(n, v) == [i \in 1..(n * Size(f.type)) |-> IF i % Size(f.type) = 1 % Size(f.type) THEN v ELSE IF i % Size(f.type) = 5 % Size(f.type) THEN 7 ELSE 0]
  IN CASE f.kind = "one" -> {one(2), one(6)}
       [] f.kind = "3" -> {many(3, 9), many(2, 8)}
       [] f.kind = "4" -> {many(4, 9), many(3, 8)}
       [] f.kind = "all" -> {many(1, 5), many(2, 4)}
       [] OTHER -> {<<66, 0>>, <<32, 67, 32, 68, 32, 0>>, <<69, 69, 69, 69>>, <<0>>}
Entries(f) == UNION {At(f, b) : b \in Values(f)}
Pick == CASE Family = "each" -> {{e} : e \in UNION {Entries(f) : f \in Range(Fields)}}
          [] Family = "both" -> {{a, b} : a \in UNION {{e \in Entries(f) : e.d = "root"} : f \in Range(Fields)}, b \in UNION {{e \in Entries(f) : e.d = "exif"} : f \in Range(Fields)}}
          [] OTHER -> {S \in SUBSET UNION {{e \in Entries(f) : e.b \in {<<66, 0>>, <<6, 0>>}} : f \in {g \in Range(Fields) : g.tag \in {274, 315, 306, 36867}}} : Cardinality(S) <= Most}
\* one entry for each tag of a directory
Proper(S) == \A a, b \in S : a.d = b.d /\ a.tag = b.tag => a = b
Pairs(S) == Family # "both" \/ \A a, b \in S : a.tag = b.tag
Index == DOMAIN Fields
Options == {[to |-> t, artist |-> a] : t \in {"dng", "tif"}, a \in IF Family = "some" THEN {<<>>, <<77, 101>>} ELSE {<<>>}}
Init == /\ opt \in Options /\ pc = "root" /\ known = [i \in Index |-> <<>>] /\ out = {}
        /\ \E S \in Pick : Proper(S) /\ Pairs(S) /\ src = SetToSeq(S)
Scan(d, i) == Look(src, d, Fields[i], known[i])
Root == pc = "root" /\ pc' = "exif" /\ known' = [i \in Index |-> IF Fields[i].from = "exif" THEN Scan("root", i) ELSE known[i]] /\ UNCHANGED <<src, opt, out>>
Exif == pc = "exif" /\ pc' = "gps" /\ known' = [i \in Index |-> IF Fields[i].from = "exif" THEN Scan("exif", i) ELSE known[i]] /\ UNCHANGED <<src, opt, out>>
Gps == pc = "gps" /\ pc' = "options" /\ known' = [i \in Index |-> IF Fields[i].from = "gps" THEN Scan("gps", i) ELSE known[i]] /\ UNCHANGED <<src, opt, out>>
Opts == /\ pc = "options" /\ pc' = "write"
        /\ known' = [i \in Index |-> IF Fields[i].from = "gps" THEN known[i] ELSE IF Fields[i].tag = 315 THEN Artist(opt, known[i])
                                      ELSE IF Fields[i].tag = 274 /\ known[i] = <<>> THEN <<1, 0>>
                                      ELSE IF Fields[i].tag = 306 /\ opt.to = "dng" THEN <<>> ELSE known[i]]
        /\ UNCHANGED <<src, opt, out>>
Write == /\ pc = "write" /\ pc' = "done"
         /\ out' = {Version} \cup {[d |-> Fields[i].to, tag |-> Fields[i].tag, type |-> Fields[i].type, b |-> known[i]] : i \in {j \in Index : known[j] # <<>>}}
                   \cup (LET l == CHOOSE i \in Index : Fields[i] = Lens IN IF opt.to = "dng" /\ known[l] # <<>> THEN {[d |-> "root", tag |-> 50736, type |-> 5, b |-> known[l]]} ELSE {})
         /\ UNCHANGED <<src, opt, known>>
Next == Root \/ Exif \/ Gps \/ Opts \/ Write
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------
Done == pc = "done"
Of(e) == CHOOSE i \in Index : Fields[i].tag = e.tag /\ (Fields[i].from = "gps") = (e.d = "gps")
\* every entry of the source with a value of its kind is in the output, unless another directory or an option has the better word
Kept == Done => \A k \in DOMAIN src : LET e == src[k] f == Fields[Of(e)] v == Value(f, e.b) IN
           (/\ v # <<>> /\ ~(e.d = "root" /\ \E j \in DOMAIN src : src[j].d = "exif" /\ src[j].tag = e.tag)
            /\ ~(f.tag = 315 /\ opt.artist # <<>>) /\ ~(f.tag = 306 /\ opt.to = "dng" /\ e.d # "gps"))
           => [d |-> f.to, tag |-> f.tag, type |-> f.type, b |-> v] \in out
\* nothing in the output that no source entry or option stands for
Honest == Done => \A e \in out \ {Version} :
           \/ (e.tag = 274 /\ e.b = <<1, 0>>) \/ (e.tag = 315 /\ e.b = Append(opt.artist, 0)) \/ (e.tag = 50736 /\ \E g \in out : g.tag = 42034 /\ g.b = e.b)
           \/ \E k \in DOMAIN src : src[k].tag = e.tag /\ Value(Fields[Of(src[k])], src[k].b) = e.b
OneEach == Done => \A a, b \in out : a.d = b.d /\ a.tag = b.tag => a = b
Same == Done => out = Output(src, opt)
Emit == Done => PrintT(ToJson([src |-> src, opt |-> opt, out |-> SetToSeq(out)]))
=============================================================================
