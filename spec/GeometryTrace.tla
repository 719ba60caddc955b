--------------------------- MODULE GeometryTrace ---------------------------
(* Recorded conversions: the tags of the source, the crop mode, the tags of the   *)
(* output, the images decoded from both, and numeric facts <<source, output,      *)
(* tolerance>>.                                                                    *)
EXTENDS Geometry, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r
Facts(T, I) == \A p \in Sites(T) : (T.cfa => Colour(T, p[1], p[2]) = ImgColour(I, p[1], p[2])) /\ \A s \in 0..(T.cpp - 1) : Black(T, p[1], p[2], s) = ImgBlack(I, p[1], p[2], s)
\* the image's areas are rectangles or absent (the whole sensor, no crop)
Active(I) == IF I.hasactive THEN I.active ELSE <<0, 0, I.w, I.h>>
Crop(I) == IF I.hascrop THEN I.crop ELSE Active(I)
WantAct(R) == IF R.mode = "none" THEN Full(R.src) ELSE R.src.act
WantCrop(R) == CASE R.mode = "best" -> CropRect(R.src) [] R.mode = "active" -> Rect(R.src.act) [] OTHER -> Rect(Full(R.src))
Abs(x) == IF x < 0 THEN -x ELSE x
Why(R) ==
  IF R.out.w # R.src.w \/ R.out.h # R.src.h \/ R.out.cpp # R.src.cpp THEN "dimensions"
  ELSE IF R.out.act # WantAct(R) THEN "active area"
  ELSE IF CropRect(R.out) # WantCrop(R) THEN "crop"
  ELSE IF R.src.cfa /\ ~SameColours(R.src, R.out) THEN "colour of a site"
  ELSE IF ~SameBlack(R.src, R.out) THEN "black level of a site"
  ELSE IF ~Facts(R.src, R.img) THEN "decoded source: pattern"
  ELSE IF Active(R.img) # Rect(R.src.act) THEN "decoded source: active area"
  ELSE IF Crop(R.img) # CropRect(R.src) THEN "decoded source: crop"
  ELSE IF ~Facts(R.out, R.img2) THEN "decoded output: pattern"
  ELSE IF Active(R.img2) # Rect(R.out.act) THEN "decoded output: active area"
  ELSE IF Crop(R.img2) # CropRect(R.out) THEN "decoded output: crop"
  ELSE IF \E i \in 1..Len(R.vals) : Abs(R.vals[i][1] - R.vals[i][2]) > R.vals[i][3] THEN "value"
  ELSE ""
Init == r \in 1..Len(Recs)
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
Emit == Why(Recs[r]) # "" => PrintT(ToJson([reject |-> r, why |-> Why(Recs[r])]))
=============================================================================
