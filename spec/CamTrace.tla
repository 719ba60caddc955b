------------------------------ MODULE CamTrace ------------------------------
(* Recorded runs of the real decoders on camera files against Cameras.tla      *)
EXTENDS Cameras, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, verdict
Near(a, b) == (a = -1 /\ b = -1) \/ (a >= 0 /\ b >= 0 /\ LET d == IF a > b THEN a - b ELSE b - a IN d <= 3 + a \div 20000)
\* DCS samples are numbers of a table's entries; its gaps are dithered over
Right(x, v, o) ==
    IF x.fmt # "DCS" THEN v = o
    ELSE LET t == x.f.table
             c == t[v + 1]
             gap == (IF v = 255 THEN c ELSE t[v + 2]) - (IF v = 0 THEN c ELSE t[v])
         IN IF c = 0 THEN o >= 0 /\ o <= gap \div 2 + 1 ELSE LET d == IF o > c THEN o - c ELSE c - o IN d * 4 <= (IF gap < 0 THEN -gap ELSE gap) + 6
Wrong(x) ==
    LET o == x.out i == Image(x) IN
    IF ~o.ok THEN "not decoded"
    ELSE IF o.make # i.make \/ o.model # i.model THEN "camera"
    ELSE IF o.w # i.w \/ o.h # i.h THEN "dimensions"
    ELSE IF o.pattern # i.pattern THEN "pattern"
    ELSE IF ~(\A k \in 1..4 : Near(i.wb[k], o.wb[k])) THEN "white balance"
    ELSE IF o.white # i.white THEN "white level"
    ELSE IF o.black # i.black \/ o.grid # (IF Len(i.black) = 4 THEN <<2, 2, 1>> ELSE <<1, 1, 1>>) THEN "black level"
    ELSE IF o.active # i.active THEN "active area"
    ELSE IF o.crop # i.crop THEN "crop area"
    ELSE IF ~(\A k \in DOMAIN x.idx : Right(x, Sample(x, x.idx[k]), o.vals[k])) THEN "samples"
    ELSE ""
\* the DNG file written from it, by crop mode
Full(x) == <<0, 0, x.w, x.h>>
Or(a, b) == IF a = <<>> THEN b ELSE a
DngActive(x, i) == IF x.mode = "none" THEN Full(x) ELSE Or(i.active, Full(x))
DngCrop(x, i) == IF x.mode = "best" THEN Or(i.crop, DngActive(x, i)) ELSE DngActive(x, i)
\* the neutral point is written in units of 1/100000
NearNeutral(a, b) == a <= 0 \/ a > 80000 \/ (b >= 0 /\ LET d == IF a > b THEN a - b ELSE b - a q == a \div 4096 + 1 IN d <= 4 + a \div 20000 + (q * q * 4096) \div 100000)
\* a file whose crop is not inside its active area contradicts itself
Inside(a, b) == a[1] >= b[1] /\ a[2] >= b[2] /\ a[1] + a[3] <= b[1] + b[3] /\ a[2] + a[4] <= b[2] + b[4]
Odd(x, i) == ~Inside(DngCrop(x, i), DngActive(x, i)) \/ ~Inside(DngActive(x, i), Full(x))
WrongDng(x) ==
    LET o == x.dng i == Image(x) IN
    IF ~o.ok THEN "not converted"
    ELSE IF o.w # i.w \/ o.h # i.h THEN "DNG: dimensions"
    ELSE IF o.make # i.make \/ o.model # i.model THEN "DNG: camera"
    ELSE IF o.pattern # i.pattern THEN "DNG: pattern"
    ELSE IF ~(\A k \in 1..4 : i.pattern = "" \/ NearNeutral(i.wb[k], o.wb[k])) THEN "DNG: white balance"
    ELSE IF o.white # i.white THEN "DNG: white level"
    ELSE IF o.black # i.black \/ o.grid # x.out.grid THEN "DNG: black level"
    ELSE IF Or(o.active, Full(x)) # DngActive(x, i) THEN "DNG: active area"
    ELSE IF Or(o.crop, Or(o.active, Full(x))) # DngCrop(x, i) THEN "DNG: crop area"
    ELSE IF o.vals # x.out.vals THEN "DNG: samples"
    ELSE ""
\* a camera the database does not know (at all, or in this mode), or without a white level, is not decoded
Verdict(x) == IF ~x.known \/ ~Known(x) THEN IF x.out.ok THEN "unknown camera decoded" ELSE ""
              ELSE IF ~HasWhite(x) THEN IF x.out.ok THEN "no white level" ELSE "" ELSE IF Wrong(x) # "" THEN Wrong(x) ELSE IF x.mode = "" \/ Odd(x, Image(x)) THEN "" ELSE WrongDng(x)
Init == r \in 1..Len(Recs) /\ verdict = "open"
Next == verdict = "open" /\ verdict' = Verdict(Recs[r]) /\ UNCHANGED r
Spec == Init /\ [][Next]_<<r, verdict>>
Emit == verdict \notin {"open", ""} => PrintT(ToJson([reject |-> r, why |-> verdict]))
=============================================================================
