------------------------------ MODULE Geometry ------------------------------
(* The meaning of a raw DNG image's geometry tags. Coordinates are sensor sites  *)
(* (row, column) from the upper left corner of the stored raster.                *)
(*  T = [w, h, act (top, left, bottom, right), crop [has, x, y, w, h] relative to *)
(*       the active area, ph, pw, pat (colours, row by row, relative to the       *)
(*       active area), bh, bw, cpp, black (levels: rows, columns, samples,        *)
(*       relative to the active area)]                                            *)
(* A decoded image carries the same facts relative to the sensor's origin.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Full(T) == <<0, 0, T.h, T.w>>
Colour(T, y, x) == T.pat[((y - T.act[1]) % T.ph) * T.pw + ((x - T.act[2]) % T.pw) + 1]
Black(T, y, x, s) == T.black[(((y - T.act[1]) % T.bh) * T.bw + ((x - T.act[2]) % T.bw)) * T.cpp + s + 1]
\* rectangles of the sensor: x, y, w, h
Rect(a) == <<a[2], a[1], a[4] - a[2], a[3] - a[1]>>
CropRect(T) == IF T.crop.has THEN <<T.act[2] + T.crop.x, T.act[1] + T.crop.y, T.crop.w, T.crop.h>> ELSE Rect(T.act)

\* reading: patterns are moved to the sensor's origin
Decode(T) ==
  [w |-> T.w, h |-> T.h, active |-> Rect(T.act), crop |-> CropRect(T), ph |-> T.ph, pw |-> T.pw, bh |-> T.bh, bw |-> T.bw, cpp |-> T.cpp,
   pat |-> [i \in 1..(T.ph * T.pw) |-> Colour(T, (i - 1) \div T.pw, (i - 1) % T.pw)],
   black |-> [i \in 1..(T.bh * T.bw * T.cpp) |-> Black(T, ((i - 1) \div T.cpp) \div T.bw, ((i - 1) \div T.cpp) % T.bw, (i - 1) % T.cpp)]]
ImgColour(I, y, x) == I.pat[(y % I.ph) * I.pw + (x % I.pw) + 1]
ImgBlack(I, y, x, s) == I.black[((y % I.bh) * I.bw + (x % I.bw)) * I.cpp + s + 1]

\* writing: the crop mode decides which area is active and what is cropped
NewAct(I, mode) == IF mode = "none" THEN <<0, 0, I.h, I.w>> ELSE <<I.active[2], I.active[1], I.active[2] + I.active[4], I.active[1] + I.active[3]>>
NewCrop(I, mode) ==
  CASE mode = "none" -> [has |-> FALSE, x |-> 0, y |-> 0, w |-> 0, h |-> 0]
    [] mode = "active" -> [has |-> TRUE, x |-> 0, y |-> 0, w |-> I.active[3], h |-> I.active[4]]
    [] mode = "best" -> [has |-> TRUE, x |-> I.crop[1] - I.active[1], y |-> I.crop[2] - I.active[2], w |-> I.crop[3], h |-> I.crop[4]]
Encode(I, mode) ==
  LET a == NewAct(I, mode) IN
  [w |-> I.w, h |-> I.h, act |-> a, crop |-> NewCrop(I, mode), ph |-> I.ph, pw |-> I.pw, bh |-> I.bh, bw |-> I.bw, cpp |-> I.cpp,
   pat |-> [i \in 1..(I.ph * I.pw) |-> ImgColour(I, a[1] + ((i - 1) \div I.pw), a[2] + ((i - 1) % I.pw))],
   black |-> [i \in 1..(I.bh * I.bw * I.cpp) |-> ImgBlack(I, a[1] + (((i - 1) \div I.cpp) \div I.bw), a[2] + (((i - 1) \div I.cpp) % I.bw), (i - 1) % I.cpp)]]

Sites(T) == (0..(T.h - 1)) \X (0..(T.w - 1))
SameColours(T, U) == \A p \in Sites(T) : Colour(T, p[1], p[2]) = Colour(U, p[1], p[2])
SameBlack(T, U) == \A p \in Sites(T), s \in 0..(T.cpp - 1) : Black(T, p[1], p[2], s) = Black(U, p[1], p[2], s)
=============================================================================
