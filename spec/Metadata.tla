------------------------------ MODULE Metadata ------------------------------
(* What becomes of the capture metadata of a source: exposure, dates, lens, names,   *)
(* position. A source is a list of entries [d |-> directory, tag, type, b |-> bytes]  *)
(* (b: the values, least significant byte first), d in {"root", "exif", "gps"}. The   *)
(* facts a converter carries are looked for in the main directory and in the Exif     *)
(* directory (which wins), those of the position in the GPS directory, and are written*)
(* with the same tag, type and value where Exif wants them.                            *)
EXTENDS Naturals, Sequences, SequencesExt
Size(t) == CASE t \in {1, 2, 6, 7} -> 1 [] t \in {3, 8} -> 2 [] t \in {4, 9, 11, 13} -> 4 [] t \in {5, 10, 12} -> 8
F(from, to, tag, type, kind) == [from |-> from, to |-> to, tag |-> tag, type |-> type, kind |-> kind]
E(tag, type, kind) == F("exif", "exif", tag, type, kind)
G(tag, type, kind) == F("gps", "gps", tag, type, kind)
\* kinds: "one" the first value, "n" exactly n values (here: 3 and 4), "text" and "trim" the text up to the first NUL, "all" every value
Fields ==
  << F("exif", "root", 274, 3, "one"), F("exif", "root", 33432, 2, "trim"), F("exif", "root", 315, 2, "trim"), F("exif", "root", 306, 2, "text"),
     E(33434, 5, "one"), E(33437, 5, "one"), E(34850, 3, "one"), E(34855, 3, "one"), E(34858, 8, "all"), E(34864, 3, "one"), E(34866, 4, "one"), E(34867, 4, "one"),
     E(36867, 2, "text"), E(36868, 2, "text"), E(36880, 2, "text"), E(36881, 2, "text"), E(36882, 2, "text"),
     E(37377, 10, "one"), E(37378, 5, "one"), E(37379, 10, "one"), E(37380, 10, "one"), E(37381, 5, "one"), E(37382, 5, "one"), E(37383, 3, "one"), E(37384, 3, "one"),
     E(37385, 3, "one"), E(37386, 5, "one"), E(37387, 5, "one"), E(37393, 4, "one"), E(37520, 2, "text"), E(37521, 2, "text"), E(37522, 2, "text"),
     E(40961, 3, "one"), E(41986, 3, "one"), E(41987, 3, "one"), E(41990, 3, "one"), E(41996, 3, "one"),
     E(42032, 2, "trim"), E(42033, 2, "trim"), E(42034, 5, "4"), E(42035, 2, "trim"), E(42036, 2, "trim"), E(42037, 2, "trim"),
     G(0, 1, "4"), G(1, 2, "text"), G(2, 5, "3"), G(3, 2, "text"), G(4, 5, "3"), G(5, 1, "one"), G(6, 5, "one"), G(7, 5, "3"), G(8, 2, "text"), G(9, 2, "text"), G(10, 2, "text"),
     G(11, 5, "one"), G(12, 2, "text"), G(13, 5, "one"), G(14, 2, "text"), G(15, 5, "one"), G(16, 2, "text"), G(17, 5, "one"), G(18, 2, "text"), G(19, 2, "text"), G(20, 5, "3"),
     G(21, 2, "text"), G(22, 5, "3"), G(23, 2, "text"), G(24, 5, "one"), G(25, 2, "text"), G(26, 5, "one"), G(27, 7, "all"), G(28, 7, "all"), G(29, 2, "text"), G(30, 3, "one"), G(31, 5, "one") >>
Blank(c) == c \in {9, 10, 11, 12, 13, 32}
UpTo(b) == LET z == {i \in DOMAIN b : b[i] = 0} IN IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
Trim(b) == LET s == {i \in DOMAIN b : ~Blank(b[i])} IN
           IF s = {} THEN <<>> ELSE SubSeq(b, CHOOSE i \in s : \A j \in s : i <= j, CHOOSE i \in s : \A j \in s : i >= j)
\* the value of an entry as field f has it; <<>>: none
Value(f, b) ==
  IF b = <<>> THEN <<>>
  ELSE CASE f.kind = "one" -> IF Len(b) < Size(f.type) THEN <<>> ELSE SubSeq(b, 1, Size(f.type))
         [] f.kind = "3" -> IF Len(b) = 3 * Size(f.type) THEN b ELSE <<>>
         [] f.kind = "4" -> IF Len(b) = 4 * Size(f.type) THEN b ELSE <<>>
         [] f.kind = "text" -> Append(UpTo(b), 0)
         [] f.kind = "trim" -> Append(Trim(UpTo(b)), 0)
         [] OTHER -> b
\* entries of directory d that carry field f (their types are those of Exif; others say nothing)
Found(src, d, f) == SelectSeq(src, LAMBDA e : e.d = d /\ e.tag = f.tag /\ e.type = f.type)
Look(src, d, f, old) == LET s == Found(src, d, f) IN IF s = <<>> THEN old ELSE Value(f, s[Len(s)].b)
Known(src, f) == IF f.from = "gps" THEN Look(src, "gps", f, <<>>) ELSE Look(src, "exif", f, Look(src, "root", f, <<>>))
--------------------------------------------------------------------------
\* the file written: "dng" (a conversion) or "tif" (a developed image); artist: the option, <<>> if not given; orient: what the image itself is known to be
Artist(o, v) == IF o.artist # <<>> THEN Append(o.artist, 0) ELSE v
Expect(src, o, f) ==
  LET v == Known(src, f) IN
  IF f.tag = 315 /\ f.from = "exif" THEN Artist(o, v)
  ELSE IF f.tag = 274 /\ f.from = "exif" THEN IF v = <<>> THEN <<1, 0>> ELSE v
  ELSE v
Lens == CHOOSE f \in Range(Fields) : f.tag = 42034
Version == [d |-> "exif", tag |-> 36864, type |-> 7, b |-> <<48, 50, 50, 48>>]
\* entries of the output that are capture metadata; the date of the last change is the conversion's own in a DNG file
Output(src, o) ==
  FoldLeft(LAMBDA s, f : LET v == Expect(src, o, f) IN
             IF v = <<>> \/ (o.to = "dng" /\ f.tag = 306 /\ f.from = "exif") THEN s ELSE s \cup {[d |-> f.to, tag |-> f.tag, type |-> f.type, b |-> v]}, {Version}, Fields)
  \cup (IF o.to = "dng" /\ Known(src, Lens) # <<>> THEN {[d |-> "root", tag |-> 50736, type |-> 5, b |-> Known(src, Lens)]} ELSE {})
=============================================================================
