-------------------------------- MODULE MCJfif --------------------------------
(* The segments of a JPEG file and their reader: markers with a length, scans that run *)
(* to the next marker, segments of kinds that are damaged or unknown; the reader finds  *)
(* every segment up to the end of image, and the first intact EXIF and XMP.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Family, N
\* exifb: no TIFF structure where EXIF says there is one; app0x: APP0 of another kind; app1s: too short for any kind
Kinds == {"app0", "app0t", "app0x", "exif", "exifb", "xmp", "app1", "app1s", "com", "sos"}
Len0(k) == CASE k = "app0" -> 18 [] k = "app0t" -> 24 [] k = "app0x" -> 12 [] k = "exif" -> 60 [] k = "exifb" -> 30 [] k = "xmp" -> 45
             [] k = "app1" -> 50 [] k = "app1s" -> 5 [] k = "com" -> 9 [] k = "sos" -> 40 [] OTHER -> 2
\* what is reported
Seen(k) == CASE k = "app0t" -> "app0" [] k = "app0x" -> "unknown" [] k = "exifb" -> "unknown" [] k = "app1s" -> "app1" [] k = "com" -> "unknown" [] OTHER -> k
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Files == CASE Family = "all" -> {<<"soi">> \o s \o <<"eoi">> \o t : s \in Seqs(Kinds, N), t \in {<<>>, <<"junk">>}}
           [] Family = "noend" -> {<<"soi">> \o s : s \in {s \in Seqs(Kinds \ {"sos"}, N - 1) : s # <<>>}}
           [] Family = "cut" -> {<<"soi", "app0">> \o s \o <<"eoi">> : s \in [1..2 -> Kinds]}
           [] Family = "first" -> {s \o <<"soi", "eoi">> : s \in [1..1 -> Kinds]}
           [] Family = "len" -> {<<"soi">> \o s \o <<"eoi">> : s \in [1..2 -> Kinds \ {"sos"}]}
VARIABLES segs, cut, bad, i, out, res
vars == <<segs, cut, bad, i, out, res>>
RECURSIVE Off(_, _)
Off(s, k) == IF k = 1 THEN 0 ELSE Off(s, k - 1) + Len0(s[k - 1])
Total == Off(segs, Len(segs) + 1)
Init == /\ segs \in Files
        /\ cut \in (IF Family = "cut" THEN 0..(Off(segs, Len(segs) + 1) - 1) ELSE {Off(segs, Len(segs) + 1)})
        \* the second segment claims length bad - 1
        /\ bad \in (IF Family = "len" THEN {1, 2, 3, 4, 7, 8, 9, 20, 31, 41, 66, 1000, 65536} ELSE {0})
        /\ i = 1 /\ out = <<>> /\ res = "run"
Read ==
  /\ res = "run"
  /\ UNCHANGED <<segs, cut, bad>>
  /\ LET o == Off(segs, i) IN
     IF i = 1 /\ segs[1] # "soi" THEN res' = "err" /\ UNCHANGED <<i, out>>
     ELSE IF i > Len(segs) THEN res' = "ok" /\ UNCHANGED <<i, out>>
     ELSE IF o + Len0(segs[i]) > cut THEN res' = "any" /\ UNCHANGED <<i, out>>   \* ends in the middle
     ELSE IF bad # 0 /\ i = 2 THEN res' = "any" /\ UNCHANGED <<i, out>>
     ELSE /\ out' = Append(out, [k |-> Seen(segs[i]), seg |-> i, off |-> o])
          /\ IF segs[i] = "eoi" THEN res' = "ok" /\ i' = i ELSE res' = res /\ i' = i + 1
Spec == Init /\ [][Read]_vars /\ WF_vars(Read)
Terminates == <>(res # "run")
\* all segments up to the end of image, each once
Complete == res = "ok" => \A k \in 1..Len(segs) : ((\E m \in 1..Len(segs) : m < k /\ segs[m] = "eoi") <=> k > Len(out)) /\ (k <= Len(out) => out[k].seg = k)
First(S) == LET c == {k \in 1..Len(out) : out[k].k \in S} IN IF c = {} THEN 0 ELSE out[CHOOSE k \in c : \A m \in c : k <= m].seg
Emit == res # "run" => PrintT(ToJson([segs |-> segs, cut |-> cut, bad |-> bad, out |-> out, res |-> res, exif |-> First({"exif"}), xmp |-> First({"xmp"})]))
=============================================================================
