----------------------------- MODULE MCGeometry -----------------------------
(* Every sensor geometry of a family goes through decode, encode (each crop      *)
(* mode), decode: each site keeps its colour and black level, areas stay put.     *)
EXTENDS Geometry, Json
CONSTANTS W, H, Offs, Pats, Blacks, Cpps
VARIABLES t, mode, img, out, img2, st
vars == <<t, mode, img, out, img2, st>>
PatDim == [p11 |-> <<1, 1>>, p22 |-> <<2, 2>>, p12 |-> <<1, 2>>, p21 |-> <<2, 1>>, p66 |-> <<6, 6>>, p82 |-> <<8, 2>>, p44 |-> <<4, 4>>, p32 |-> <<3, 2>>, p13 |-> <<1, 3>>]
Crops(a) == {[has |-> FALSE, x |-> 0, y |-> 0, w |-> 0, h |-> 0], [has |-> TRUE, x |-> 1, y |-> 2, w |-> a[4] - a[2] - 3, h |-> a[3] - a[1] - 2]}
Tags(top, left, bottom, right, c, p, b, cpp) ==
  [w |-> W, h |-> H, act |-> <<top, left, bottom, right>>, crop |-> c, ph |-> PatDim[p][1], pw |-> PatDim[p][2], pat |-> [i \in 1..(PatDim[p][1] * PatDim[p][2]) |-> i],
   bh |-> PatDim[b][1], bw |-> PatDim[b][2], cpp |-> cpp, black |-> [i \in 1..(PatDim[b][1] * PatDim[b][2] * cpp) |-> i]]
Init ==
  /\ \E top, left \in Offs, d \in {0, 1}, p \in Pats, b \in Blacks, cpp \in Cpps : \E c \in Crops(<<top, left, H - d, W - d>>) : t = Tags(top, left, H - d, W - d, c, p, b, cpp)
  /\ mode \in {"best", "active", "none"} /\ img = <<>> /\ out = <<>> /\ img2 = <<>> /\ st = "source"
Read == st = "source" /\ img' = Decode(t) /\ st' = "image" /\ UNCHANGED <<t, mode, out, img2>>
Write == st = "image" /\ out' = Encode(img, mode) /\ st' = "written" /\ UNCHANGED <<t, mode, img, img2>>
Again == st = "written" /\ img2' = Decode(out) /\ st' = "end" /\ UNCHANGED <<t, mode, img, out>>
Next == Read \/ Write \/ Again
Spec == Init /\ [][Next]_vars
SiteColours == st = "written" => SameColours(t, out)
SiteBlacks == st = "written" => SameBlack(t, out)
Stable == st = "end" => img2.pat = img.pat /\ img2.black = img.black /\ (mode = "best" => img2 = img) /\ (mode = "active" => img2.active = img.active)
CropInside == st = "written" /\ out.crop.has => out.crop.x >= 0 /\ out.crop.y >= 0 /\ out.crop.x + out.crop.w <= Rect(out.act)[3] /\ out.crop.y + out.crop.h <= Rect(out.act)[4]
Emit == st = "end" => PrintT(ToJson([t |-> t, mode |-> mode]))
=============================================================================
