------------------------------ MODULE MakeDng ------------------------------
(* makedng: one DNG file put together from input files. First the place of the result:  *)
(* what happens to what was there, step by step, with a crash possible at any step;     *)
(* then the contents: which input each part comes from and which tags the options give. *)
EXTENDS Integers, Sequences
\* what is at the output's name before: nothing, a file, a link to a file, a dangling link, a directory, an input of this run
Before == {"nothing", "file", "link", "dangling", "directory", "input"}
\* what comes of the work: a DNG, or a failure of one kind or another
Works == {"good", "badindex", "unsupported", "corrupt", "missing", "grey"}
\* the state of the output's name, of a work file beside it, the step and how the program ended
Start(b, f, k) == [at |-> b, work |-> "nothing", before |-> b, force |-> f, works |-> k, pc |-> "open", status |-> "running"]
Steps(s) ==
  CASE s.pc = "open" ->
         IF s.force THEN {[s EXCEPT !.work = "part", !.pc = "build"]}
         ELSE IF s.before = "nothing" THEN {[s EXCEPT !.at = "part", !.pc = "build"]}
         ELSE {[s EXCEPT !.pc = "end", !.status = "failed"]}
    [] s.pc = "build" ->
         IF s.works = "good" THEN {IF s.force THEN [s EXCEPT !.work = "dng", !.pc = "publish"] ELSE [s EXCEPT !.at = "dng", !.pc = "end", !.status = "ok"]}
         ELSE {[s EXCEPT !.pc = "undo"]}
    [] s.pc = "publish" ->
         IF s.before = "directory" THEN {[s EXCEPT !.pc = "undo"]} ELSE {[s EXCEPT !.at = "dng", !.work = "nothing", !.pc = "end", !.status = "ok"]}
    [] s.pc = "undo" -> {IF s.force THEN [s EXCEPT !.work = "nothing", !.pc = "end", !.status = "failed"] ELSE [s EXCEPT !.at = "nothing", !.pc = "end", !.status = "failed"]}
    [] OTHER -> {}
\* nothing that was there is lost unless a complete DNG takes its place, as asked for
Kept(s) == s.before # "nothing" => (s.at = s.before \/ (s.force /\ s.at = "dng" /\ s.works = "good"))
Ended(s) == s.pc = "end" => /\ s.work = "nothing" /\ s.at \in {s.before, "dng"}
                            /\ (s.status = "ok") <=> (s.at = "dng")
                            /\ (s.status = "ok") <=> (s.works = "good" /\ (s.before = "nothing" \/ (s.force /\ s.before # "directory")))
--------------------------------------------------------------------------
\* the first input mapped to a use; 0: none
Of(x, use) == LET S == {k \in 1..Len(x.map) : x.map[k].use = use} IN IF S = {} THEN 0 ELSE x.map[CHOOSE k \in S : \A l \in S : k <= l].from
Input(x, use) == x.inputs[Of(x, use)]
Has(x, use, kinds) == Of(x, use) # 0 /\ Input(x, use).kind \in kinds
Pictures == {"png8", "png16", "tif8", "tif16"}
Eight == {"png8", "tif8"}
\* a picture's samples are the sensor data of a camera with three colours in every place
RawPart(x, o) ==
  IF ~Has(x, "raw", Pictures \cup {"dng"}) THEN (Of(x, "raw") = 0 => o.raw = <<>>)
  ELSE LET i == Input(x, "raw") IN
       /\ Len(o.raw) = 1
       /\ LET q == o.raw[1] IN
          /\ q.w = i.w /\ q.h = i.h /\ q.cpp = i.cpp /\ q.data = i.data
          /\ i.kind \in Pictures => /\ q.photometric = 34892 /\ q.black = <<0, 0, 0>>
                                    /\ q.table = x.table
                                    /\ q.white = (IF x.table = <<>> /\ i.kind \in Eight THEN <<255, 255, 255>> ELSE <<65535, 65535, 65535>>)
PreviewPart(x, o) == Has(x, "preview", Pictures) => (Len(o.preview) = 1 /\ o.preview[1].w = Input(x, "preview").w /\ o.preview[1].h = Input(x, "preview").h)
NoPreview(x, o) == Of(x, "preview") = 0 => o.preview = <<>>
\* the thumbnail keeps the shape within 240 x 120 and the (one) colour
Abs(v) == IF v < 0 THEN -v ELSE v
ThumbPart(x, o) ==
  /\ Has(x, "thumbnail", Pictures) =>
       LET i == Input(x, "thumbnail") IN
       /\ Len(o.thumb) = 1
       /\ LET t == o.thumb[1] IN /\ t.w <= 240 /\ t.h <= 120 /\ (t.w >= 239 \/ t.h >= 119)
                                 /\ Abs((t.w * i.h) - (t.h * i.w)) <= (IF i.w > i.h THEN i.w ELSE i.h)
                                 /\ i.colour # <<>> => t.colours = <<i.colour>>
  /\ Of(x, "thumbnail") = 0 => o.thumb = <<>>
ExifPart(x, o) ==
  /\ Has(x, "exif", {"dng", "jpeg"}) => o.iso = <<Input(x, "exif").iso>>
  /\ (Of(x, "exif") = 0 \/ Has(x, "exif", Pictures)) => o.iso = <<>>
XmpPart(x, o) == (Has(x, "xmp", {"jpeg"}) => o.xmp = Input(x, "xmp").xmp) /\ ((Of(x, "xmp") = 0 \/ Has(x, "xmp", Pictures)) => o.xmp = <<>>)
\* the tags the options give (what they leave out a camera file may give); numbers in ten-thousandths
Near(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= 1
Given(v, o) == v # <<>> => o = v
Options(x, o) ==
  /\ Given(x.artist, o.artist) /\ Given(x.make, o.make) /\ Given(x.model, o.model) /\ Given(x.unique, o.unique)
  /\ (x.artist = <<>> /\ Has(x, "exif", {"dng"})) => o.artist = Input(x, "exif").artist
  /\ o.reference = <<IF x.reference = "output" THEN 1 ELSE 0>>
  /\ o.backward = x.backward /\ o.version = <<1, 6, 0, 0>>
  /\ \A k \in 1..3 : IF x.matrix[k] = <<>> \/ (k = 3 /\ x.backward[2] < 6) THEN Has(x, "raw", Pictures) => (o.matrix[k] = <<>> /\ o.light[k] = <<>>)
                     ELSE Near(o.matrix[k], x.matrix[k]) /\ o.light[k] = <<x.light[k]>>
  /\ IF x.neutral # <<>> THEN Near(o.neutral, x.neutral) /\ o.xy = <<>>
     ELSE IF x.xy # <<>> THEN Near(o.xy, x.xy) /\ o.neutral = <<>> ELSE o.xy = <<>>
Why(x) ==
  LET o == x.out IN
  IF ~x.ok THEN "not made"
  ELSE IF ~RawPart(x, o) THEN "raw part" ELSE IF ~(PreviewPart(x, o) /\ NoPreview(x, o)) THEN "preview" ELSE IF ~ThumbPart(x, o) THEN "thumbnail"
  ELSE IF ~ExifPart(x, o) THEN "exif" ELSE IF ~XmpPart(x, o) THEN "xmp" ELSE IF ~Options(x, o) THEN "options" ELSE ""
=============================================================================
