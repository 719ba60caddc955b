------------------------------ MODULE Cameras ------------------------------
(* What a camera raw file of a given kind says about its image.                *)
(*                                                                           *)
(* A record x describes a file by the facts stored in it (x.f), the entries    *)
(* of the camera database for its make and model (x.cams: mode -> entry), its  *)
(* raster's bytes (x.data) and dimensions.  Image(x) is the image it stands    *)
(* for: camera, white balance, levels, areas and the place of every sample.    *)
(* White balance values are in units of 1/4096; -1 is "unknown" (NaN).         *)
EXTENDS Integers, Sequences, FiniteSets, Packing

Has(s, k) == \E i \in DOMAIN s : s[i] = k
Sum(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE S[i - 1] + s[i] IN S[Len(s)]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

--------------------------------------------------------------------------
\* the entry of the camera database that belongs to the file
Ratio(x) == LET q == (x.f.w * 100) \div x.f.h IN IF q < 125 THEN "1:1" ELSE IF q < 145 THEN "4:3" ELSE IF q < 165 THEN "3:2" ELSE "16:9"
Mode(x) ==
    CASE x.fmt = "NEF" -> IF x.f.bps = 12 THEN "12bit" ELSE IF x.f.bps = 14 THEN "14bit" ELSE "16bit"
      [] x.fmt = "RW2" -> Ratio(x)
      [] x.fmt = "ORF" -> IF x.cams[""].highres > 0 /\ x.f.w >= x.cams[""].highres THEN "highres" ELSE ""
      [] OTHER -> ""
Cam(x) == x.cams[Mode(x)]
Known(x) == Mode(x) \in DOMAIN x.cams

--------------------------------------------------------------------------
\* layout of the raster (names of Packing.tla)
Big(x) == x.f.be
Layout(x) ==
    CASE x.fmt \in {"MEF", "KDC"} -> "3"
      [] x.fmt = "ERF" -> "8"
      [] x.fmt = "MRW" -> IF x.f.storage = 12 THEN "3" ELSE "13"
      [] x.fmt = "3FR" -> "18"
      [] x.fmt = "PEF" -> IF x.f.compression = 1 THEN "20" ELSE "3"
      [] x.fmt = "SRW" -> IF x.f.bps = 14 THEN "16" ELSE IF x.f.compression = 32769 THEN "12"
                          ELSE IF Has(Cam(x).hints, "little_endian") THEN "11" ELSE "3"
      [] x.fmt = "ORF" -> LET n == Sum(x.f.counts) IN
                          IF n >= 2 * x.w * x.h THEN (IF Big(x) THEN "14" ELSE "15")
                          ELSE IF n >= 16 * ((x.w * x.h) \div 10) THEN "7"
                          ELSE IF Has(Cam(x).hints, "interlaced") THEN "9" ELSE "6"
      [] x.fmt = "ARI" -> IF Has(Cam(x).hints, "little-endian") THEN "11" ELSE "6"
      [] x.fmt = "MOS" -> IF Big(x) THEN "20" ELSE "18"
      [] x.fmt = "ARW" -> IF x.f.compression = 1 THEN (IF x.f.model = "DSC-R1" THEN "17" ELSE "18") ELSE "11"
      [] x.fmt = "NEF" -> LET le == (~Big(x) \/ Has(Cam(x).hints, "little_endian")) /\ ~Has(Cam(x).hints, "big_endian") IN
                          IF Has(Cam(x).hints, "coolpixsplit") THEN "10"
                          ELSE IF Has(Cam(x).hints, "msb32") THEN "6"
                          ELSE IF Has(Cam(x).hints, "unpacked") THEN (IF le THEN "18" ELSE "20")
                          ELSE IF x.f.bps = 14 THEN (IF le THEN "16" ELSE "17") ELSE IF le THEN "11" ELSE "3"
      [] x.fmt = "RW2" -> IF x.f.bytes >= 2 * x.w * x.h THEN "15" ELSE "7"
      [] x.fmt = "DCS" -> "p8"

\* 12be is stored as one stream of bits, most significant first: rows of whole bytes only
Byte(x, a) == x.data[a + 1]
Bit(x, a) == (Byte(x, a \div 8) \div (2 ^ (7 - (a % 8)))) % 2
Sample(x, i) ==
    LET l == Layout(x) r == i \div x.w c == i % x.w
    IN Sum([k \in 1..Bits(l) |-> (2 ^ (k - 1)) * Bit(x, Place(l, x.w, x.h, r, c, k - 1))])

--------------------------------------------------------------------------
\* white balance, R G B and the second green (emerald) or unknown
None == <<-1, -1, -1, -1>>
Over(v, d) == (v * 4096) \div d
ByGreen(a) == <<Over(a[1], a[2]), (4096 + Over(a[3], a[2])) \div 2, Over(a[4], a[2]), -1>>
Float(x, i) == x.f.wb[i]        \* stored as a number: already in units of 1/4096
\* the words of Nikon's colour balance records
NikonWb(k, v) ==
    CASE k = "0c" -> <<v[1], 256, 256, v[2]>>
      [] k = "nrw" -> <<4 * v[1], v[2] + v[3], v[2] + v[3], 4 * v[4]>>
      [] k = "nrwold" -> <<v[1], 256, 256, v[2]>>
      [] k = "0100" -> <<v[1], v[3], v[3], v[2]>>
      [] k = "0102" -> <<v[1], v[2], v[2], v[4]>>
      [] k = "0103" -> <<v[1], v[2], v[2], v[3]>>
      [] OTHER -> v
Wb(x) ==
    CASE x.fmt \in {"MEF", "DCS"} -> None
      [] x.fmt = "ERF" -> <<(x.f.r * 17113) \div 500, 4096, (x.f.b * 28005) \div 1000, -1>>    \* r * 508 * 1.078 / 65536
      [] x.fmt = "MRW" -> LET v == x.f.wbg IN
                          IF Has(Cam(x).hints, "swapped_wb") THEN ByGreen(<<v[3], v[1], v[1], v[2]>>) ELSE ByGreen(v)
      [] x.fmt = "3FR" -> <<Over(x.f.neutral[1][2], x.f.neutral[1][1]), Over(x.f.neutral[2][2], x.f.neutral[2][1]), Over(x.f.neutral[3][2], x.f.neutral[3][1]), -1>>
      [] x.fmt = "KDC" -> IF x.f.maker = "none" THEN None ELSE IF x.f.maker = "float" THEN <<Float(x, 1), Float(x, 2), Float(x, 3), -1>>
                          ELSE <<Over(x.f.r, 256), 4096, Over(x.f.b, 256), -1>>
      [] x.fmt = "PEF" -> IF x.f.wb = <<>> THEN None ELSE ByGreen(x.f.wb)
      [] x.fmt = "SRW" -> <<x.f.wb[1] - x.f.dark[1], x.f.wb[2] - x.f.dark[2], x.f.wb[4] - x.f.dark[4], -1>>
      [] x.fmt = "ORF" -> <<Over(x.f.r, 256), 4096, Over(x.f.b, 256), -1>>
      [] x.fmt = "ARI" -> <<Float(x, 1), Float(x, 2), Float(x, 3), -1>>
      [] x.fmt = "MOS" -> IF x.f.neutrals = <<>> THEN None
                          ELSE <<Over(x.f.neutrals[1], x.f.neutrals[2]), Over(x.f.neutrals[1], x.f.neutrals[3]), Over(x.f.neutrals[1], x.f.neutrals[4]), -1>>
      [] x.fmt = "ARW" -> IF x.f.order = "grbg" THEN ByGreen(<<x.f.wb[2], x.f.wb[1], x.f.wb[4], x.f.wb[3]>>) ELSE ByGreen(x.f.wb)
      [] x.fmt = "NEF" -> IF Has(Cam(x).hints, "nowb") THEN None ELSE IF x.f.kind = "none" THEN <<4096, 4096, 4096, -1>> ELSE ByGreen(NikonWb(x.f.kind, x.f.wb))
      [] x.fmt = "RW2" -> <<Over(x.f.r, x.f.g), 4096, Over(x.f.b, x.f.g), -1>>

--------------------------------------------------------------------------
\* levels: the camera database comes first, then the file, then zero
Pattern(x) ==
    IF x.fmt = "RW2" /\ x.f.cfa > 0 THEN <<"RGGB", "GRBG", "GBRG", "BGGR">>[x.f.cfa] ELSE Cam(x).pattern
Letters(p) == CASE p = "RGGB" -> <<"R", "G", "G", "B">> [] p = "GRBG" -> <<"G", "R", "B", "G">> [] p = "GBRG" -> <<"G", "B", "R", "G">>
                [] p = "BGGR" -> <<"B", "G", "G", "R">> [] OTHER -> <<"G", "G", "G", "G">>
FileBlack(x) ==
    CASE x.fmt \in {"ERF", "PEF"} -> Get(x.f, "black", <<>>)
      [] x.fmt = "SRW" -> <<0, 0, 0, 0>>
      [] x.fmt = "ORF" -> LET b == Get(x.f, "black", <<>>) IN IF x.f.bits = 14 THEN [i \in DOMAIN b |-> 4 * b[i]] ELSE b
      [] x.fmt = "3FR" -> Get(x.f, "black", <<>>)
      [] x.fmt = "ARW" -> LET b == IF x.f.black2 # <<>> THEN x.f.black2 ELSE x.f.black1
                              c == IF Len(b) = 4 THEN b ELSE IF b = <<>> THEN <<>> ELSE <<b[1], b[1], b[1], b[1]>>
                          IN IF x.f.compression = 32767 THEN [i \in DOMAIN c |-> c[i] \div 4] ELSE c
      [] x.fmt = "NEF" -> LET b == x.f.black IN IF x.f.bps = 12 THEN [i \in DOMAIN b |-> b[i] \div 4] ELSE b
      \* stored by colour
      [] x.fmt = "RW2" -> IF x.f.black = <<>> THEN <<>>
                          ELSE [k \in 1..4 |-> LET c == Letters(Pattern(x))[k] IN x.f.black[IF c = "R" THEN 1 ELSE IF c = "G" THEN 2 ELSE 3]]
      [] OTHER -> <<>>
Black(x) == IF Cam(x).black # <<>> THEN Cam(x).black
            ELSE IF ~Has(Cam(x).hints, "invalid_blacklevel") /\ FileBlack(x) # <<>> THEN FileBlack(x) ELSE <<0>>
FileWhite(x) ==
    CASE x.fmt = "3FR" -> <<x.f.white>>
      [] x.fmt = "ARW" -> IF x.f.white = <<>> THEN <<>> ELSE IF x.f.compression = 32767 THEN <<x.f.white[1] \div 4>> ELSE <<x.f.white[1]>>
      [] OTHER -> <<>>
White(x) == LET v == IF Cam(x).white # <<>> THEN Cam(x).white ELSE FileWhite(x)
            IN IF x.fmt = "ORF" /\ x.f.bits = 14 THEN <<4 * v[1]>> ELSE v
HasWhite(x) == Cam(x).white # <<>> \/ FileWhite(x) # <<>>

--------------------------------------------------------------------------
\* areas <<x, y, width, height>>, <<>>: none
Borders(x, b) == IF b = <<>> THEN <<>> ELSE <<b[1], b[2], x.w - b[1] - b[3], x.h - b[2] - b[4]>>
Active(x) ==
    CASE x.fmt = "ARW" /\ x.f.size # <<>> -> <<0, 0, x.f.size[1], x.f.size[2]>>
      [] x.fmt = "RW2" /\ x.f.area # <<>> -> <<x.f.area[1], x.f.area[2], x.f.area[3] - x.f.area[1], x.f.area[4] - x.f.area[2]>>
      [] OTHER -> Borders(x, Cam(x).active)
Crop(x) ==
    CASE x.fmt = "RW2" -> IF x.f.area # <<>> THEN Active(x)
                          ELSE IF x.f.crop # <<>> THEN <<x.f.crop[1], x.f.crop[2], x.f.crop[3] - x.f.crop[1], x.f.crop[4] - x.f.crop[2]>>
                          ELSE Borders(x, Cam(x).crop)
      [] x.fmt \in {"3FR", "ARW", "ORF", "NEF"} /\ x.f.crop # <<>> -> x.f.crop
      [] OTHER -> Borders(x, Cam(x).crop)

Image(x) == [make |-> Cam(x).make, model |-> Cam(x).model, w |-> x.w, h |-> x.h, pattern |-> Pattern(x),
             wb |-> Wb(x), black |-> Black(x), white |-> White(x), active |-> Active(x), crop |-> Crop(x)]
=============================================================================
