------------------------------- MODULE Ljpeg -------------------------------
(* Lossless JPEG (ITU-T T.81, process 14): prediction, differences modulo 2^16, *)
(* Huffman coded categories, byte stuffing, headers. Samples are interleaved:   *)
(* sample k (0-based) of an image with w columns and n components belongs to    *)
(* row k \div (w*n), column (k % (w*n)) \div n, component k % n.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Mod16(x) == x % 65536
Pow2(n) == 2^n
\* prediction for sample k, given the samples 0..k-1 in img (1-based sequence)
Predict(img, k, w, n, prec, pred) ==
  LET row == k \div (w * n)
      col == (k % (w * n)) \div n
      a == img[k - n + 1]
      b == img[k - w * n + 1]
      c == img[k - w * n - n + 1]
  IN IF row = 0 /\ col = 0 THEN Pow2(prec - 1)
     ELSE IF row = 0 THEN a
     ELSE IF col = 0 THEN b
     ELSE CASE pred = 1 -> a [] pred = 2 -> b [] pred = 3 -> c [] pred = 4 -> a + b - c
            [] pred = 5 -> a + ((b - c) \div 2) [] pred = 6 -> b + ((a - c) \div 2) [] pred = 7 -> (a + b) \div 2
\* (\div is floor division, hence an arithmetic shift)

\* the difference which is coded: -32767..32768, taken modulo 2^16
Signed(d) == LET m == Mod16(d) IN IF m > 32768 THEN m - 65536 ELSE m
Abs(x) == IF x < 0 THEN -x ELSE x
Category(d) == IF d = 0 THEN 0 ELSE CHOOSE s \in 1..16 : Pow2(s - 1) <= Abs(d) /\ Abs(d) < Pow2(s)
\* category s and its s additional bits v give the difference
Extend(s, v) == IF s = 0 THEN 0 ELSE IF s = 16 THEN 32768 ELSE IF v >= Pow2(s - 1) THEN v ELSE v - Pow2(s) + 1

----------------------------------------------------------------------------
\* streams: bytes is a 1-based sequence, positions below are 0-based
U8(d, p) == d[p + 1]
U16(d, p) == d[p + 1] * 256 + d[p + 2]

\* canonical code: counts of the lengths 1..16 and the values; a function from <<length, code>> to the value
RECURSIVE CodesOf(_, _, _, _)
CodesOf(cnt, vals, len, first) ==   \* codes of length >= len, the next code of this length is first
  IF len > 16 THEN {}
  ELSE LET c == cnt[len]
           used == LET RECURSIVE S(_) S(l) == IF l = 0 THEN 0 ELSE cnt[l] + S(l - 1) IN S(len - 1)
       IN {[l |-> len, c |-> first + i, v |-> vals[used + i + 1]] : i \in 0..(c - 1)} \cup CodesOf(cnt, vals, len + 1, (first + c) * 2)
Table(cnt, vals) ==
  LET s == CodesOf(cnt, vals, 1, 0)
  IN [k \in {<<e.l, e.c>> : e \in s} |-> (CHOOSE e \in s : e.l = k[1] /\ e.c = k[2]).v]
\* no code may be longer than its length allows, and the all-ones code is reserved
TableOk(t) == \A k \in DOMAIN t : k[2] < Pow2(k[1]) - 1 /\ t[k] \in 0..16

\* headers up to and including SOS; the result says where the coded data starts
Hdr0 == [prec |-> 0, h |-> 0, w |-> 0, n |-> 0, ids |-> <<>>, tab |-> [i \in 0..3 |-> [l \in 1..16 |-> 0]], vals |-> [i \in 0..3 |-> <<>>], sel |-> <<>>, pred |-> 0, pt |-> 0, at |-> -1]
RECURSIVE Dht(_, _, _, _)
Dht(d, p, e, h) ==   \* tables between p and e
  IF p >= e THEN h
  ELSE LET id == U8(d, p)
           cnt == [l \in 1..16 |-> U8(d, p + l)]
           total == LET RECURSIVE S(_) S(l) == IF l = 0 THEN 0 ELSE cnt[l] + S(l - 1) IN S(16)
       IN Dht(d, p + 17 + total, e, [h EXCEPT !.tab[id] = cnt, !.vals[id] = [i \in 1..total |-> U8(d, p + 16 + i)]])
RECURSIVE Parse(_, _, _)
Parse(d, p, h) ==
  IF p + 4 > Len(d) \/ U8(d, p) # 255 THEN h
  ELSE LET m == U8(d, p + 1)
           L == U16(d, p + 2)
           nx == p + 2 + L
       IN IF nx > Len(d) THEN h
          ELSE CASE m = 195 -> Parse(d, nx, [h EXCEPT !.prec = U8(d, p + 4), !.h = U16(d, p + 5), !.w = U16(d, p + 7), !.n = U8(d, p + 9),
                                             !.ids = [i \in 1..U8(d, p + 9) |-> U8(d, p + 7 + 3 * i)]])
                 [] m = 196 -> Parse(d, nx, Dht(d, p + 4, nx, h))
                 [] m = 218 -> LET n == U8(d, p + 4) IN
                      [h EXCEPT !.sel = [i \in 1..n |-> LET j == CHOOSE j \in 0..(n - 1) : U8(d, p + 5 + 2 * j) = h.ids[i] IN U8(d, p + 6 + 2 * j) \div 16],
                                !.pred = U8(d, p + 5 + 2 * n), !.pt = U8(d, p + 7 + 2 * n) % 16, !.at = nx]
                 [] OTHER -> Parse(d, nx, h)
Header(d) == IF U16(d, 0) = 65496 THEN Parse(d, 2, Hdr0) ELSE Hdr0

\* coded data without stuffing, and whether the end marker follows immediately
RECURSIVE Unstuff(_, _, _)
Unstuff(d, p, acc) ==
  IF p + 1 >= Len(d) THEN [b |-> acc, ok |-> FALSE]
  ELSE IF U8(d, p) # 255 THEN Unstuff(d, p + 1, Append(acc, U8(d, p)))
  ELSE IF U8(d, p + 1) = 0 THEN Unstuff(d, p + 2, Append(acc, 255))
  ELSE [b |-> acc, ok |-> U8(d, p + 1) = 217 /\ p + 2 = Len(d)]

Bit(b, i) == (b[i \div 8 + 1] \div Pow2(7 - (i % 8))) % 2
RECURSIVE Bits(_, _, _)
Bits(b, i, n) == IF n = 0 THEN 0 ELSE Bits(b, i, n - 1) * 2 + Bit(b, i + n - 1)
\* one coded difference at bit i: [d, used] or used = 0 if no code matches
Decode1(b, i, t) ==
  LET room == Len(b) * 8 - i
      ls == {l \in 1..16 : l <= room /\ <<l, Bits(b, i, l)>> \in DOMAIN t}
  IN IF ls = {} THEN [d |-> 0, used |-> 0]
     ELSE LET l == CHOOSE l \in ls : TRUE
              s == t[<<l, Bits(b, i, l)>>]
              x == IF s = 16 THEN 0 ELSE s
          IN IF l + x > room THEN [d |-> 0, used |-> 0] ELSE [d |-> Extend(s, Bits(b, i + l, x)), used |-> l + x]
=============================================================================
