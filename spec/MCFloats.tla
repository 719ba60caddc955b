------------------------------ MODULE MCFloats ------------------------------
(* Widening of the narrow floating point formats of DNG (16 bit: 5 bit exponent, *)
(* 10 bit fraction; 24 bit: 7 and 16) to binary32. The value is unchanged; the   *)
(* invariant states this with exact integers: sign, and significand * 2^exponent. *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Format, Fracs
Params == CASE Format = 16 -> [e |-> 5, f |-> 10] [] Format = 24 -> [e |-> 7, f |-> 16] [] Format = 32 -> [e |-> 8, f |-> 23]
Bias(e) == 2^(e - 1) - 1
VARIABLES s, ex, fr
vars == <<s, ex, fr>>
FracSet == IF Fracs = 0 THEN 0..(2^Params.f - 1)
           ELSE {0} \cup {2^i : i \in 0..(Params.f - 1)} \cup {2^i - 1 : i \in 1..Params.f} \cup {(k * 7919 + 13) % 2^Params.f : k \in 1..Fracs}
Init == s \in 0..1 /\ ex \in 0..(2^Params.e - 1) /\ fr \in FracSet
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Max == 2^Params.e - 1
RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2(x \div 2)
Class == IF ex = Max THEN (IF fr = 0 THEN "inf" ELSE "nan") ELSE IF ex = 0 THEN (IF fr = 0 THEN "zero" ELSE "subnormal") ELSE "normal"
Wide ==
  CASE Params.e = 8 -> [e |-> ex, f |-> fr]
    [] Params.e < 8 /\ Class \in {"inf", "nan"} -> [e |-> 255, f |-> fr * 2^(23 - Params.f)]
    [] Params.e < 8 /\ Class = "zero" -> [e |-> 0, f |-> 0]
    [] Params.e < 8 /\ Class = "normal" -> [e |-> ex - Bias(Params.e) + 127, f |-> fr * 2^(23 - Params.f)]
    [] Params.e < 8 /\ Class = "subnormal" -> LET l == Log2(fr) IN [e |-> 1 - Bias(Params.e) + 127 - (Params.f - l), f |-> (fr - 2^l) * 2^(23 - l)]
\* the exact value: significand, exponent of its last digit
Narrow == IF ex = 0 THEN <<fr, 1 - Bias(Params.e) - Params.f>> ELSE <<fr + 2^Params.f, ex - Bias(Params.e) - Params.f>>
WideV == IF Wide.e = 0 THEN <<Wide.f, 1 - 127 - 23>> ELSE <<Wide.f + 2^23, Wide.e - 127 - 23>>
\* a * 2^b = c * 2^d for a significand c with more digits
SameValue(x, y) == LET d == x[2] - y[2] IN IF x[1] = 0 THEN y[1] = 0 ELSE d \in 0..23 /\ y[1] % 2^d = 0 /\ y[1] \div 2^d = x[1]
Exact == Class \in {"zero", "normal", "subnormal"} => SameValue(Narrow, WideV) /\ Wide.e \in 0..254 /\ Wide.f \in 0..(2^23 - 1)
Emit == PrintT(ToJson(<<s, ex, fr, Class, Wide.e, Wide.f>>))
=============================================================================
