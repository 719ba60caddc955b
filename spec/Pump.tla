-------------------------------- MODULE Pump --------------------------------
(* Bit streams over bytes: the order in which the readers of rawler deliver  *)
(* the bits of a byte sequence, and what each of their operations returns.   *)
(*   lsb    least significant bit of each byte first, values LSB first       *)
(*   msb    most significant bit first                                       *)
(*   msb32  the same over 32 bit little endian words                         *)
(*   jpeg   msb, FF 00 stands for FF, the data end at any other FF marker or *)
(*          at the end of the data; zeros follow forever                     *)
EXTENDS Naturals, Sequences

Kinds == {"lsb", "msb", "msb32", "jpeg"}
Pow == <<1, 2, 4, 8, 16, 32, 64, 128>>
ByteBit(v, p) == (v \div Pow[p + 1]) % 2        \* p = 0: least significant

RECURSIVE Destuff(_, _)
Destuff(d, i) ==
    IF i > Len(d) THEN <<>>
    ELSE IF d[i] # 255 THEN <<d[i]>> \o Destuff(d, i + 1)
    ELSE IF i < Len(d) /\ d[i + 1] = 0 THEN <<255>> \o Destuff(d, i + 2)
    ELSE <<>>

\* bytes in the order of the stream
Ordered(kind, d) ==
    CASE kind = "jpeg" -> Destuff(d, 1)
      [] kind = "msb32" ->
           [i \in 1..Len(d) |->
              LET w == 4 * ((i - 1) \div 4)
                  n == IF Len(d) - w < 4 THEN Len(d) - w ELSE 4
              IN d[w + n - ((i - 1) % 4)]]
      [] OTHER -> d

\* bit at position p (0 based) of the stream of bytes s, as the byte order of kind has it
StreamBit(kind, s, p) ==
    LET byte == p \div 8 + 1
    IN IF byte > Len(s) THEN 0
       ELSE ByteBit(s[byte], IF kind = "lsb" THEN p % 8 ELSE 7 - (p % 8))

Endless(kind) == kind = "jpeg"
\* can n bits be read from position p on?
Has(kind, s, p, n) == Endless(kind) \/ p + n <= 8 * Len(s)

\* the value of n bits from position p, most significant bit first
Value(kind, s, p, n) ==
    [i \in 1..n |-> IF kind = "lsb" THEN StreamBit(kind, s, p + n - i) ELSE StreamBit(kind, s, p + i - 1)]

\* as 32 bit two's complement number: sign extended
Widen(v) == IF Len(v) = 0 THEN <<>> ELSE [i \in 1..32 |-> IF i <= 32 - Len(v) THEN v[1] ELSE v[i - (32 - Len(v))]]

RECURSIVE ZerosFrom(_, _, _)
ZerosFrom(kind, s, p) == IF p >= 8 * Len(s) THEN 0 ELSE IF StreamBit(kind, s, p) = 1 THEN 0 ELSE 1 + ZerosFrom(kind, s, p + 1)

\* result of operation o = <<name, n>> at position p: value as bits and the new position
Result(kind, s, p, o) ==
    LET n == o[2] IN
    CASE o[1] \in {"g", "i"} -> [ok |-> Has(kind, s, p, n), v |-> Value(kind, s, p, n), p |-> p + n]
      [] o[1] = "c" -> [ok |-> Has(kind, s, p, n), v |-> <<>>, p |-> p + n]
      [] o[1] = "p" -> [ok |-> Has(kind, s, p, n), v |-> Value(kind, s, p, n), p |-> p]
      [] o[1] = "s" -> [ok |-> Has(kind, s, p, n), v |-> Widen(Value(kind, s, p, n)), p |-> p + n]
      \* zeros up to the next set bit, which is not consumed; 31 bits are looked at in advance
      [] o[1] = "z" ->
           LET z == ZerosFrom(kind, s, p)
           IN [ok |-> Has(kind, s, p + z, 31) /\ p + z < 8 * Len(s), v |-> <<>>, p |-> p + z]
=============================================================================
