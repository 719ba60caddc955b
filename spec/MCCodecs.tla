------------------------------ MODULE MCCodecs ------------------------------
(* Encoders of the camera codecs as a transition system: one sample is coded *)
(* after the other, and whatever was coded so far, the interpreter of        *)
(* Codecs.tla reads back the very samples.  Finished images are emitted and   *)
(* given to the real decoders.                                                *)
EXTENDS Codecs, Json
CONSTANTS Jobs       \* numbers of the shapes below
VARIABLES j, img, bits, st
vars == <<j, img, bits, st>>

Shape == <<
  [codec |-> "arw1", w |-> 1, h |-> 2, v |-> {0, 1, 2, 7, 8, 100, 2047, 2048, 4095}],
  [codec |-> "arw1", w |-> 2, h |-> 2, v |-> {0, 1, 9, 2048, 4095}],
  [codec |-> "orf", w |-> 2, h |-> 2, v |-> {0, 3, 77, 2048, 4095}],
  [codec |-> "orf", w |-> 4, h |-> 1, v |-> {0, 5, 300, 2047, 4095}],
  [codec |-> "orf", w |-> 4, h |-> 3, v |-> {100, 180}],
  [codec |-> "orf", w |-> 8, h |-> 1, v |-> {0, 4095}],
  [codec |-> "pef", w |-> 2, h |-> 2, v |-> {0, 1, 300, 2048, 4095}],
  [codec |-> "pef", w |-> 2, h |-> 3, v |-> {0, 6, 4095}],
  [codec |-> "pef", w |-> 4, h |-> 1, v |-> {0, 2, 31, 1024, 4095}],
  [codec |-> "srw2", w |-> 2, h |-> 3, v |-> {0, 17, 4095}],
  [codec |-> "srw2", w |-> 4, h |-> 1, v |-> {0, 1, 130, 2049, 4095}],
  [codec |-> "pana8", w |-> 2, h |-> 4, v |-> {0, 4095}],
  [codec |-> "pana8", w |-> 4, h |-> 2, v |-> {0, 700, 4095}],
  \* thorough
  [codec |-> "orf", w |-> 2, h |-> 3, v |-> {0, 40, 2000, 4095}],
  [codec |-> "pef", w |-> 4, h |-> 2, v |-> {0, 9, 4095}],
  [codec |-> "srw2", w |-> 4, h |-> 2, v |-> {5, 600, 4095}] >>
Sh == Shape[j]

Bin(x, n) == [i \in 1..n |-> (x \div P(n - i)) % 2]
Extra(d, n) == IF n = 0 THEN <<>> ELSE Bin(IF d > 0 THEN d ELSE d + P(n) - 1, n)
Cat(d) == CHOOSE n \in 0..16 : Mag(d) < P(n) /\ (n = 0 \/ Mag(d) >= P(n - 1))
\* the code of symbol number s of a canonical code
CanonCode(cnt, s) ==
    LET f == FoldLeft(LAMBDA a, l : IF a.done THEN a
                         ELSE IF s <= a.i + cnt[l] THEN [a EXCEPT !.done = TRUE, !.r = Bin(a.c + s - a.i - 1, l)]
                         ELSE [a EXCEPT !.c = (@ + cnt[l]) * 2, !.i = @ + cnt[l]],
                      [done |-> FALSE, c |-> 0, i |-> 0, r |-> <<>>], [l \in 1..16 |-> l])
    IN f.r
PentaxCnt == <<0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0>>
PefEnc(d) == LET n == Cat(d) s == CHOOSE i \in 1..13 : PentaxDefault.vals[i] = n IN CanonCode(PentaxCnt, s) \o Extra(d, n)
Srw2Enc(d) == LET n == Cat(d) i == CHOOSE k \in 1..14 : Srw2Tab[k][2] = n
              IN Bin((IF i = 1 THEN 0 ELSE Srw2End[i - 1]) \div P(10 - Srw2Tab[i][1]), Srw2Tab[i][1]) \o Extra(d, n)
ArwEnc(d) == LET n == Cat(d)
             IN (CASE n = 0 -> <<0, 1, 1>> [] n = 1 -> <<1, 1>> [] n = 2 -> <<1, 0>> [] n = 3 -> <<0, 1, 0>> [] OTHER -> [i \in 1..(n - 2) |-> 0] \o <<1>>) \o Extra(d, n)
\* a code of seventeen categories for Panasonic 8: unary, the last two of sixteen bits
Tab8 == [i \in 1..17 |-> IF i = 17 THEN <<16, 65535>> ELSE <<i, P(i) - 2>>]
Pana8Enc(d) == LET n == Cat(d) IN Bin(Tab8[n + 1][2], Tab8[n + 1][1]) \o Extra(d, n)

\* the place of the k-th coded sample, counted from zero
Rank(k) == LET w == Sh.w h == Sh.h
           IN CASE Sh.codec = "arw1" -> LET c == w - 1 - (k \div h) q == k % h r == IF q < h \div 2 THEN 2 * q ELSE 2 * q - h + 1 IN r * w + c
                [] Sh.codec = "pana8" -> LET two == 2 * w q == k % 4 IN (k \div two) * two + (q % 2) * w + ((k % two) \div 4) * 2 + q \div 2
                [] OTHER -> k
At(i) == img[(CHOOSE k \in 0..(Len(img) - 1) : Rank(k) = i) + 1]
Pred(k) ==
    LET w == Sh.w r == k \div w c == k % w
    IN CASE Sh.codec = "arw1" -> IF k = 0 THEN 0 ELSE img[k]
         [] Sh.codec \in {"pef", "srw2"} -> IF c >= 2 THEN img[k - 1] ELSE IF r >= 2 THEN img[k - (2 * w) + 1] ELSE 0
         [] Sh.codec = "pana8" -> IF k % (2 * w) >= 4 THEN img[k - 3] ELSE IF k >= 2 * w THEN img[k - (2 * w) + 1] ELSE 1000
         [] OTHER -> 0
OrfEnc(x, k) ==       \* [b |-> bits, carry |-> next]
    LET y == st[((k % Sh.w) % 2) + 1] nb == OrfLen(y)
        e == x - OrfPred(img, Sh.w, k)
        low == e % 4 d == (e - low) \div 4
        f == d - y[2]
        cv == IF f < 0 THEN Inverted(f) ELSE f
        high == cv \div P(nb)
    IN [b |-> <<IF f < 0 THEN 1 ELSE 0>> \o Bin(low, 2)
                \o (IF high < 12 THEN [i \in 1..high |-> 0] \o <<1>> ELSE [i \in 1..12 |-> 0] \o Bin(high * 2, 16 - nb)) \o Bin(cv % P(nb), nb),
        carry |-> OrfCarry(st, Sh.w, k, cv, d)]

Zero == << <<0, 0, 0>>, <<0, 0, 0>> >>
Init == j \in Jobs /\ img = <<>> /\ bits = <<>> /\ st = Zero
Code1(x) == LET k == Len(img) d == x - Pred(k)
            IN CASE Sh.codec = "orf" -> LET e == OrfEnc(x, k) IN bits' = bits \o e.b /\ st' = e.carry
                 [] Sh.codec = "arw1" -> bits' = bits \o ArwEnc(d) /\ UNCHANGED st
                 [] Sh.codec = "pef" -> bits' = bits \o PefEnc(d) /\ UNCHANGED st
                 [] Sh.codec = "srw2" -> bits' = bits \o Srw2Enc(d) /\ UNCHANGED st
                 [] Sh.codec = "pana8" -> bits' = bits \o Pana8Enc(d) /\ UNCHANGED st
Next == Len(img) < Sh.w * Sh.h /\ \E x \in Sh.v : Code1(x) /\ img' = Append(img, x) /\ UNCHANGED j
Spec == Init /\ [][Next]_vars

Full == Len(img) = Sh.w * Sh.h
Bit(i) == IF i <= Len(bits) THEN bits[i] ELSE 0
Bytes == [q \in 1..((Len(bits) + 7) \div 8) |-> FoldLeft(LAMBDA a, i : a * 2 + Bit((q - 1) * 8 + i), 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)]
BytesRev == [q \in 1..((Len(bits) + 7) \div 8) |-> FoldLeft(LAMBDA a, i : a * 2 + Bit((q - 1) * 8 + 9 - i), 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)]
Stream == IF Sh.codec = "pana8" THEN BytesRev ELSE Bytes
Decoded ==
    LET w == Sh.w h == Sh.h b == Stream
    IN CASE Sh.codec = "arw1" -> Arw1(b, w, h)
         [] Sh.codec = "orf" -> Orf(<<0, 0, 0, 0, 0, 0, 0>> \o b, w, h)
         [] Sh.codec = "pef" -> Pef(b, w, h)
         [] Sh.codec = "srw2" -> Srw2(b, w, h)
         [] Sh.codec = "pana8" -> [ok |-> TRUE, out |-> Pana8Strip(b, Tab8, <<1000, 1000, 1000, 1000>>, 4095, w, h).out]
Image == [i \in 1..(Sh.w * Sh.h) |-> At(i - 1)]
RoundTrip == Full => Decoded.ok /\ Decoded.out = Image
Emit == Full => PrintT(ToJson([codec |-> Sh.codec, w |-> Sh.w, h |-> Sh.h, b |-> Stream, img |-> Image]))
=============================================================================
