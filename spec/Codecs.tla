------------------------------- MODULE Codecs -------------------------------
(* The sample codecs of camera raw files, as interpreters of byte strings.    *)
(* Each one maps the bytes of an image of w x h samples to                    *)
(* [ok |-> the bytes are a well formed stream, out |-> samples in raster order]*)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

P(n) == 2^n
By(b, i) == IF i < Len(b) THEN b[i + 1] ELSE 0
\* n <= 17 bits at bit position p, the first bit of a byte is its highest (M) or lowest (L)
M(b, p, n) == LET k == p \div 8 o == p % 8 IN ((By(b, k) * 65536 + By(b, k + 1) * 256 + By(b, k + 2)) \div P(24 - o - n)) % P(n)
L(b, p, n) == LET k == p \div 8 o == p % 8 IN ((By(b, k) + By(b, k + 1) * 256 + By(b, k + 2) * 65536) \div P(o)) % P(n)
\* little endian words of n bytes read from their highest bit
Words(b, n) == [i \in 1..(((Len(b) + n - 1) \div n) * n) |-> By(b, ((i - 1) \div n) * n + n - 1 - ((i - 1) % n))]
\* FF 00 stands for FF, FF with anything else ends the data
Unstuffed(b) ==
    LET s == FoldLeft(LAMBDA a, x : IF a.end THEN a
                                     ELSE IF a.ff THEN IF x = 0 THEN [a EXCEPT !.ff = FALSE, !.o = Append(@, 255)] ELSE [a EXCEPT !.end = TRUE]
                                     ELSE IF x = 255 THEN [a EXCEPT !.ff = TRUE] ELSE [a EXCEPT !.o = Append(@, x)],
                      [o |-> <<>>, ff |-> FALSE, end |-> FALSE], b)
    IN s.o
\* difference of a category, two's complement, limits
Ext(v, n) == IF n = 0 THEN 0 ELSE IF v < P(n - 1) THEN v - P(n) + 1 ELSE v
SExt(v, n) == IF n = 0 THEN 0 ELSE IF v < P(n - 1) THEN v ELSE v - P(n)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
Mag(x) == IF x < 0 THEN -x ELSE x
Inverted(x) == -x - 1
Upto(n) == [i \in 1..n |-> i - 1]
In16(x) == x >= 0 /\ x <= 65535

----------------------------------------------------------------------------
\* prefix codes.  cnt[l]: number of codes of length l, in canonical order
Canon(cnt, vals) ==
    LET s == FoldLeft(LAMBDA a, l : [lim |-> Append(a.lim, (a.c + cnt[l]) * P(16 - l)), first |-> Append(a.first, a.c), idx |-> Append(a.idx, a.i),
                                     c |-> (a.c + cnt[l]) * 2, i |-> a.i + cnt[l]],
                      [lim |-> <<>>, first |-> <<>>, idx |-> <<>>, c |-> 0, i |-> 0], [l \in 1..16 |-> l])
    IN [lim |-> s.lim, first |-> s.first, idx |-> s.idx, vals |-> vals]
RECURSIVE CodeLen(_, _, _)
CodeLen(t, v, l) == IF l > 16 THEN 0 ELSE IF v < t.lim[l] THEN l ELSE CodeLen(t, v, l + 1)
\* [n |-> length of the code (0: none), s |-> index of the symbol]
Code(t, b, p) == LET v == M(b, p, 16) l == CodeLen(t, v, 1)
                 IN IF l = 0 THEN [n |-> 0, s |-> 1] ELSE [n |-> l, s |-> t.idx[l] + (v \div P(16 - l)) - t.first[l] + 1]
\* a difference: category, then its bits
Diff(t, b, p) == LET c == Code(t, b, p)
                 IN IF c.n = 0 \/ c.s > Len(t.vals) THEN [ok |-> FALSE, p |-> p, d |-> 0]
                    ELSE LET n == t.vals[c.s] IN [ok |-> TRUE, p |-> p + c.n + n, d |-> Ext(M(b, p + c.n, n), n)]

----------------------------------------------------------------------------
\* Sony ARW 1: columns from the right, first the even then the odd rows, one running sum
Arw1Diff(b, p) ==
    LET t == M(b, p, 2)
        z == LET v == M(b, p + 2, 13) IN CHOOSE k \in 0..13 : (k = 13 /\ v = 0) \/ (k < 13 /\ v >= P(12 - k) /\ v < P(13 - k))
        c == CASE t = 3 -> [n |-> 1, q |-> p + 2] [] t = 2 -> [n |-> 2, q |-> p + 2]
               [] t = 1 -> [n |-> IF M(b, p + 2, 1) = 1 THEN 0 ELSE 3, q |-> p + 3]
               [] t = 0 -> [n |-> 4 + z, q |-> p + 2 + Smaller(13, z + 1)]
    IN [p |-> c.q + c.n, d |-> Ext(M(b, c.q, c.n), c.n)]
Arw1(b, w, h) ==
    LET s == FoldLeft(LAMBDA a, k : LET e == Arw1Diff(b, a.p) v == a.sum + e.d IN [p |-> e.p, sum |-> v, out |-> Append(a.out, v), ok |-> a.ok /\ v >= 0 /\ v < 4096],
                      [p |-> 0, sum |-> 0, out |-> <<>>, ok |-> h % 2 = 0], Upto(w * h))
        at(r, c) == (w - 1 - c) * h + (IF r % 2 = 0 THEN r \div 2 ELSE (h + r - 1) \div 2) + 1
    IN [ok |-> s.ok, out |-> [k \in 1..(w * h) |-> s.out[at((k - 1) \div w, (k - 1) % w)]]]

\* Sony ARW 2: blocks of 16 bytes for 16 samples of one colour: largest, smallest, their places, seven bit steps
Arw2Block(b, at) ==
    LET g(p, n) == L(b, at * 8 + p, n)
        hi == g(0, 11) lo == g(11, 11) ih == g(22, 4) il == g(26, 4)
        sh == CHOOSE s \in 0..4 : (hi - lo < 128 * P(s)) /\ (s = 0 \/ hi - lo >= 128 * P(s - 1))
        nth(i) == i - (IF ih < i THEN 1 ELSE 0) - (IF il < i THEN 1 ELSE 0)
    IN [ok |-> hi >= lo /\ ih # il,
        v |-> IF hi < lo THEN <<>> ELSE [i \in 0..15 |-> IF i = ih THEN hi ELSE IF i = il THEN lo ELSE Smaller(2047, g(30 + 7 * nth(i), 7) * P(sh) + lo)]]
Arw2(b, w, h) ==
    LET blocks == [k \in 0..((w * h) \div 16 - 1) |-> Arw2Block(b, k * 16)]
        \* two blocks make 32 columns: the even ones, the odd ones
        val(r, c) == blocks[(r * w + (c \div 32) * 32) \div 16 + (c % 2)].v[(c % 32) \div 2] * 2
    IN IF w % 32 # 0 \/ \E k \in DOMAIN blocks : ~blocks[k].ok THEN [ok |-> FALSE, out |-> <<>>]
       ELSE [ok |-> TRUE, out |-> [k \in 1..(w * h) |-> val((k - 1) \div w, (k - 1) % w)]]
\* its curve: five segments with slopes 1, 2, 4, 8, 16 ending at the points given
Arw2Curve(pts) == [j \in 0..4095 |-> FoldLeft(LAMBDA a, i : a + P(i) * Clip(j - pts[i + 1], 0, pts[i + 2] - pts[i + 1]), 0, <<0, 1, 2, 3, 4>>)]

\* Sony SRF: every 32 bit word xor a pad, which continues itself by a shift register.  Words as two halves.
Mul32(a, m) ==    \* a: four bytes, low first; times m (bytes), plus one
    LET col(k) == FoldLeft(LAMBDA s, i : s + a[i + 1] * m[k - i + 1], 0, Upto(k + 1))
        c0 == col(0) + 1 c1 == col(1) + c0 \div 256 c2 == col(2) + c1 \div 256 c3 == col(3) + c2 \div 256
    IN <<c0 % 256, c1 % 256, c2 % 256, c3 % 256>>
Xor4(a, b) == [i \in 1..4 |-> a[i] ^^ b[i]]
Shl1(a) == [i \in 1..4 |-> ((a[i] * 2) % 256) + (IF i > 1 /\ a[i - 1] >= 128 THEN 1 ELSE 0)]
Top(a) == IF a[4] >= 128 THEN 1 ELSE 0
SrfPad(key) ==
    LET start == FoldLeft(LAMBDA a, i : Append(a, Mul32(IF i = 0 THEN key ELSE a[i], <<221, 14, 233, 2>>)), <<>>, Upto(4))
        addb(x, t) == [x EXCEPT ![1] = IF x[1] % 2 = 1 THEN x[1] ELSE x[1] + t]
        p4 == [start EXCEPT ![4] = addb(Shl1(start[4]), Top(Xor4(start[1], start[3])))]
        all == FoldLeft(LAMBDA a, i : Append(a, addb(Shl1(Xor4(a[i - 3], a[i - 1])), Top(Xor4(a[i - 2], a[i])))), p4, [i \in 1..123 |-> i + 3])
    IN [i \in 1..127 |-> <<all[i][4], all[i][3], all[i][2], all[i][1]>>]    \* stored big endian
Srf(b, key, len) ==
    LET n == len \div 4
        pads == FoldLeft(LAMBDA a, i : Append(a, Xor4(a[i + 1], a[i + 65])), SrfPad(key), Upto(n))
    IN [k \in 1..(4 * n) |-> By(b, k - 1) ^^ pads[127 + 1 + ((k - 1) \div 4)][1 + ((k - 1) % 4)]]

\* Olympus: adaptive lengths per column parity, median-like prediction from the same colour
OrfLen(y) ==       \* the number of low bits
    LET i == IF y[3] < 3 THEN 2 ELSE 0
        lowc == y[1] % 65536
    IN Smaller(16, CHOOSE n \in (2 + i)..18 : lowc < P(n + i) /\ (n = 2 + i \/ lowc >= P(n - 1 + i)))
OrfPred(out, w, k) ==
    LET r == k \div w c == k % w
        q(dr, dc) == out[(r - dr) * w + c - dc + 1]
    IN CASE r < 2 /\ c < 2 -> 0 [] r < 2 /\ c >= 2 -> q(0, 2) [] r >= 2 /\ c < 2 -> q(2, 0)
         [] OTHER -> LET wv == q(0, 2) n == q(2, 0) nw == q(2, 2)
                     IN IF (wv < nw /\ nw < n) \/ (n < nw /\ nw < wv)
                        THEN IF Mag(wv - nw) > 32 \/ Mag(n - nw) > 32 THEN wv + n - nw ELSE (wv + n) \div 2
                        ELSE IF Mag(wv - nw) > Mag(n - nw) THEN wv ELSE n
OrfCarry(carry, w, k, cv, d) ==
    LET c == k % w y == carry[(c % 2) + 1]
    IN IF c = w - 1 THEN << <<0, 0, 0>>, <<0, 0, 0>> >>
       ELSE [carry EXCEPT ![(c % 2) + 1] = <<cv, (d * 3 + y[2]) \div 32, IF cv > 16 THEN 0 ELSE y[3] + 1>>]
OrfStep(b, w, a, k) ==
    LET y == a.carry[((k % w) % 2) + 1]
        nb == OrfLen(y)
        sign == M(b, a.p, 1) low == M(b, a.p + 1, 2)
        v == M(b, a.p + 3, 12)
        z == CHOOSE q \in 0..12 : (q = 12 /\ v = 0) \/ (q < 12 /\ v >= P(11 - q) /\ v < P(12 - q))
        p1 == IF z = 12 THEN a.p + 15 + (16 - nb) ELSE a.p + 3 + z + 1
        high == IF z = 12 THEN M(b, a.p + 15, 16 - nb) \div 2 ELSE z
        cv == high * P(nb) + M(b, p1, nb)
        d == (IF sign = 1 THEN Inverted(cv) ELSE cv) + y[2]
        s == OrfPred(a.out, w, k) + d * 4 + low
    IN [ok |-> a.ok /\ s >= 0 /\ s < 4096 /\ cv < 65536,
        p |-> p1 + nb,
        carry |-> OrfCarry(a.carry, w, k, cv, d),
        out |-> Append(a.out, s)]
\* (once a sample is out of range the stream is no stream of this format, and is not followed any further)
Orf(b, w, h) ==
    LET s == FoldLeft(LAMBDA a, k : IF a.ok THEN OrfStep(b, w, a, k) ELSE a, [ok |-> w % 2 = 0, p |-> 56, carry |-> << <<0, 0, 0>>, <<0, 0, 0>> >>, out |-> <<>>], Upto(w * h))
    IN [ok |-> s.ok, out |-> s.out]

\* Samsung 1: groups of 16, four lengths kept along the row, prediction from the left or from above
Srw1Group(b, w, a, r, g) ==      \* a: p, len, row samples, ok
    LET up == M(b, a.p, 1) = 1
        op(i) == M(b, a.p + 1 + 2 * i, 2)
        L0 == FoldLeft(LAMBDA s, i : CASE op(i) = 3 -> [p |-> s.p + 4, len |-> [s.len EXCEPT ![i + 1] = M(b, s.p, 4)]]
                                       [] op(i) = 2 -> [s EXCEPT !.len[i + 1] = @ - 1]
                                       [] op(i) = 1 -> [s EXCEPT !.len[i + 1] = @ + 1]
                                       [] OTHER -> s,
                      [p |-> a.p + 9, len |-> a.len], <<0, 1, 2, 3>>)
        good == (\A i \in 1..4 : L0.len[i] >= 0 /\ L0.len[i] <= 16) /\ ~(up /\ r < 2)
        px(s, c) == LET n == L0.len[(IF c % 2 = 0 THEN 1 ELSE 3) + c \div 8]
                        pred == IF up THEN a.out[(r - (IF c % 2 = 0 THEN 1 ELSE 2)) * w + g * 16 + c + 1]
                                ELSE IF g = 0 THEN 128 ELSE s.row[(g * 16) - (IF c % 2 = 0 THEN 2 ELSE 1) + 1]
                    IN [p |-> s.p + n, row |-> [s.row EXCEPT ![g * 16 + c + 1] = pred + SExt(M(b, s.p, n), n)]]
        done == FoldLeft(px, [p |-> L0.p, row |-> a.row], <<0, 2, 4, 6, 8, 10, 12, 14, 1, 3, 5, 7, 9, 11, 13, 15>>)
    IN IF ~a.ok \/ ~good THEN [a EXCEPT !.ok = FALSE]
       ELSE [a EXCEPT !.p = done.p, !.len = L0.len, !.row = done.row, !.ok = \A i \in 1..16 : In16(done.row[g * 16 + i])]
Srw1(bytes, offs, w, h) ==
    LET row(a, r) == LET b == Words(SubSeq(bytes, offs[r + 1] + 1, Len(bytes)), 4)
                         n == IF r < 2 THEN 7 ELSE 4
                         s == FoldLeft(LAMBDA x, g : Srw1Group(b, w, x, r, g), [a EXCEPT !.p = 0, !.len = <<n, n, n, n>>, !.row = [i \in 1..w |-> 0]], Upto(w \div 16))
                     IN [s EXCEPT !.out = @ \o s.row]
        f == FoldLeft(row, [ok |-> w % 16 = 0 /\ h % 2 = 0, p |-> 0, len |-> <<>>, row |-> <<>>, out |-> <<>>], Upto(h))
        \* red and blue change places
        at(r, c) == IF r % 2 = 0 /\ c % 2 = 1 THEN (r + 1) * w + c - 1 ELSE IF r % 2 = 1 /\ c % 2 = 0 THEN (r - 1) * w + c + 1 ELSE r * w + c
    IN [ok |-> f.ok, out |-> [k \in 1..(w * h) |-> f.out[at((k - 1) \div w, (k - 1) % w) + 1]]]

\* Samsung 2: a fixed prefix code, vertical prediction in the first two columns
Srw2Tab == << <<3, 4>>, <<3, 7>>, <<2, 6>>, <<2, 5>>, <<4, 3>>, <<6, 0>>, <<7, 9>>, <<8, 10>>, <<9, 11>>, <<10, 12>>, <<10, 13>>, <<5, 1>>, <<4, 8>>, <<4, 2>> >>
Srw2End == FoldLeft(LAMBDA a, x : Append(a, (IF a = <<>> THEN 0 ELSE a[Len(a)]) + P(10 - x[1])), <<>>, Srw2Tab)
Srw2Diff(b, p) == LET v == M(b, p, 10)
                      e == Srw2Tab[CHOOSE i \in 1..14 : v < Srw2End[i] /\ (i = 1 \/ v >= Srw2End[i - 1])]
                  IN [ok |-> TRUE, p |-> p + e[1] + e[2], d |-> Ext(M(b, p + e[1], e[2]), e[2])]

\* two columns predicted from two rows above, the others from the left: Pentax, Nikon, Samsung 2
Cross(b, w, h, df(_, _, _), lo, hi) ==
    LET s == FoldLeft(LAMBDA a, k :
            LET r == k \div w c == k % w e == df(b, a.p, r)
                v == e.d + (IF c >= 2 THEN a.out[k - 1] ELSE IF r >= 2 THEN a.out[k - 2 * w + 1] ELSE a.up[(r % 2) * 2 + c + 1])
            IN IF ~a.ok THEN a ELSE [ok |-> e.ok /\ v >= lo /\ v <= hi, p |-> e.p, out |-> Append(a.out, v), up |-> a.up],
            [ok |-> w % 2 = 0, p |-> 0, out |-> <<>>, up |-> <<0, 0, 0, 0>>], Upto(w * h))
    IN [ok |-> s.ok, out |-> s.out]
CrossFrom(b, w, h, df(_, _, _), up, lo, hi) ==
    LET s == FoldLeft(LAMBDA a, k :
            LET r == k \div w c == k % w e == df(b, a.p, r)
                v == e.d + (IF c >= 2 THEN a.out[k - 1] ELSE IF r >= 2 THEN a.out[k - 2 * w + 1] ELSE up[(r % 2) + 2 * c + 1])
            IN IF ~a.ok THEN a ELSE [ok |-> e.ok /\ v >= lo /\ v <= hi, p |-> e.p, out |-> Append(a.out, v)],
            [ok |-> w % 2 = 0, p |-> 0, out |-> <<>>], Upto(w * h))
    IN [ok |-> s.ok, out |-> s.out]
Srw2(b, w, h) == Cross(b, w, h, LAMBDA x, p, r : Srw2Diff(x, p), 0, 4095)

\* Samsung 3
Srw3Head(bytes) ==
    LET b == Words(bytes, 4)
    IN [bits |-> M(b, 20, 4) + 1, opt |-> M(b, 84, 4), init |-> M(b, 114, 14)]
Srw3Off == <<-4, -2, -2, 0, 0, 2, 4>>
Srw3Avg == <<0, 0, 1, 0, 1, 0, 0>>
Srw3Block(b, w, hd, a, r, col) ==
    LET skip == hd.opt % 2 = 1 mv == (hd.opt \div 2) % 2 = 1 qp == (hd.opt \div 4) % 2 = 1
        \* scale
        s1 == IF ~qp /\ col % 64 = 0
              THEN LET i == M(b, a.p, 2) IN IF i = 3 THEN [p |-> a.p + 14, v |-> M(b, a.p + 2, 12)] ELSE [p |-> a.p + 2, v |-> a.scale + <<0, -2, 2>>[i + 1]]
              ELSE [p |-> a.p, v |-> a.scale]
        \* where the prediction comes from
        s2 == IF mv THEN [p |-> s1.p + 1, v |-> IF M(b, s1.p, 1) = 1 THEN 3 ELSE 7]
              ELSE IF M(b, s1.p, 1) = 0 THEN [p |-> s1.p + 4, v |-> M(b, s1.p + 1, 3)] ELSE [p |-> s1.p + 1, v |-> a.motion]
        m == s2.v
        col3(i) == IF r % 2 = 1 THEN i \div 2 ELSE ((i \div 2) + 2) % 3
        lens == IF skip \/ M(b, s2.p, 1) = 0
                THEN LET p0 == s2.p + (IF skip THEN 0 ELSE 1)
                     IN FoldLeft(LAMBDA s, i :
                            LET f == M(b, p0 + 2 * i, 2) c == col3(i) + 1
                                n == CASE f = 0 -> s.mode[c][1] [] f = 1 -> s.mode[c][1] + 1 [] f = 2 -> s.mode[c][1] - 1 [] f = 3 -> M(b, s.p, 4)
                            IN [p |-> s.p + (IF f = 3 THEN 4 ELSE 0), mode |-> [s.mode EXCEPT ![c] = <<@[2], n>>], n |-> Append(s.n, n)],
                            [p |-> p0 + 8, mode |-> a.mode, n |-> <<>>], <<0, 1, 2, 3>>)
                ELSE [p |-> s2.p + 1, mode |-> a.mode, n |-> <<0, 0, 0, 0>>]
        \* reference samples
        x(i) == IF (r + i) % 2 = 1 THEN col + i + Srw3Off[m + 1] ELSE IF i % 2 = 1 THEN col + i - 1 + Srw3Off[m + 1] ELSE col + i + 1 + Srw3Off[m + 1]
        rr(i) == IF (r + i) % 2 = 1 THEN r - 2 ELSE r - 1
        inside(i) == x(i) >= 0 /\ x(i) + 2 * Srw3Avg[m + 1] < w
        pred(i) == IF m = 7 THEN IF col = 0 THEN hd.init ELSE a.row[col + (i % 2) - 2 + 1]
                   ELSE LET v(k) == a.out[rr(i) * w + k + 1] IN IF Srw3Avg[m + 1] = 1 THEN (v(x(i)) + v(x(i) + 2) + 1) \div 2 ELSE v(x(i))
        good == (m = 7 \/ (r >= 2 /\ \A i \in 0..15 : inside(i))) /\ \A i \in 1..4 : lens.n[i] >= 0 /\ lens.n[i] <= hd.bits + 1
        \* the samples of one colour first: in even rows the even columns, in odd rows the odd columns
        place(i) == IF r % 2 = 1 THEN (i % 8) * 2 + 1 - i \div 8 ELSE (i % 8) * 2 + i \div 8
        px(s, i) == LET n == lens.n[i \div 4 + 1]
                        d == SExt(M(b, s.p, n), n) * (s1.v * 2 + 1) + s1.v
                    IN [p |-> s.p + n, row |-> [s.row EXCEPT ![col + place(i) + 1] = Clip(pred(place(i)) + d, 0, P(hd.bits) - 1)]]
        done == FoldLeft(px, [p |-> lens.p, row |-> a.row], Upto(16))
    IN IF ~a.ok \/ ~good THEN [a EXCEPT !.ok = FALSE]
       ELSE [a EXCEPT !.p = done.p, !.row = done.row, !.scale = s1.v, !.motion = m, !.mode = lens.mode]
Srw3(bytes, w, h) ==
    LET hd == Srw3Head(bytes)
        row(a, r) ==
            LET b == Words(SubSeq(bytes, a.at + 1, Len(bytes)), 4)
                n == IF r < 2 THEN 7 ELSE 4
                s == FoldLeft(LAMBDA x, g : Srw3Block(b, w, hd, x, r, g * 16),
                              [a EXCEPT !.p = 0, !.row = [i \in 1..w |-> 0], !.scale = 0, !.motion = 7, !.mode = << <<n, n>>, <<n, n>>, <<n, n>> >>], Upto(w \div 16))
            IN [s EXCEPT !.out = @ \o s.row, !.at = @ + ((s.p + 127) \div 128) * 16]
        f == FoldLeft(row, [ok |-> w % 16 = 0, at |-> 16, p |-> 0, row |-> <<>>, scale |-> 0, motion |-> 7, mode |-> <<>>, out |-> <<>>], Upto(h))
    IN [ok |-> f.ok, out |-> f.out]

\* Panasonic 4: 16 bytes, the last one first, hold 14 samples of two colours
PanaBlock(b, at) ==
    LET q == [i \in 1..16 |-> By(b, at + 16 - i)]
        px(a, i) ==
            LET s == IF i % 3 = 2 THEN [p |-> a.p + 2, sh |-> 4 \div P(3 - M(q, a.p, 2))] ELSE [p |-> a.p, sh |-> a.sh]
                e == (i % 2) + 1
                j == M(q, s.p, 8)
            IN IF a.nz[e] # 0
               THEN LET low == a.pred[e] - 128 * P(s.sh)
                        cut == IF low < 0 \/ s.sh = 4 THEN low % P(s.sh) ELSE low
                        v == IF j = 0 THEN a.pred[e] ELSE cut + j * P(s.sh)
                    IN [a EXCEPT !.p = s.p + 8, !.sh = s.sh, !.pred[e] = v, !.out = Append(@, v)]
               ELSE IF j # 0 \/ i > 11
               THEN LET v == j * 16 + M(q, s.p + 8, 4) IN [a EXCEPT !.p = s.p + 12, !.sh = s.sh, !.nz[e] = j, !.pred[e] = v, !.out = Append(@, v)]
               ELSE [a EXCEPT !.p = s.p + 8, !.sh = s.sh, !.out = Append(@, a.pred[e])]
    IN FoldLeft(px, [p |-> 0, sh |-> 0, nz |-> <<0, 0>>, pred |-> <<0, 0>>, out |-> <<>>], Upto(14))
Pana4(b, w, h, split) ==
    LET chunk == 16384
        f(i) == LET base == (i \div chunk) * chunk o == i % chunk IN base + (IF split THEN (o + 8184) % chunk ELSE o)
        n == (w * h) \div 14
        d == IF split THEN [i \in 1..(n * 16) |-> By(b, f(i - 1))] ELSE b
        s == [k \in 0..(n - 1) |-> PanaBlock(d, k * 16)]
    IN [ok |-> w % 14 = 0 /\ \A k \in 0..(n - 1) : s[k].p <= 128 /\ \A i \in 1..14 : In16(s[k].out[i]),
        out |-> [k \in 1..(n * 14) |-> s[(k - 1) \div 14].out[((k - 1) % 14) + 1]]]

\* Panasonic 5: 16 byte packets of 10 or 9 samples, in chunks of which the last part comes first
Pana5(b, w, h, bps) ==
    LET per == IF bps = 12 THEN 10 ELSE 9
        f(i) == (i \div 16384) * 16384 + ((i + 8184) % 16384)
        used == (w * h + per - 1) \div per
        d == [i \in 1..(used * 16) |-> By(b, f(i - 1))]
    IN [ok |-> TRUE, out |-> [k \in 1..(w * h) |-> L(d, ((k - 1) \div per) * 128 + ((k - 1) % per) * bps, bps)]]
\* Panasonic 7: the same packets, a whole number for each row
Pana7(b, w, h, bps) ==
    LET per == IF bps = 12 THEN 10 ELSE 9
    IN [ok |-> w % per = 0, out |-> [k \in 1..(w * h) |-> L(b, ((k - 1) \div per) * 128 + ((k - 1) % per) * bps, bps)]]
\* Panasonic 6: packets of 14 or 11 samples read from their end: two whole samples, then scales and three mantissas each
Pana6Block(b, at, bps) ==
    LET n == IF bps = 12 THEN 14 ELSE 11
        few == IF bps = 12 THEN 8 ELSE 10
        lowest == IF bps = 12 THEN 128 ELSE 512
        f(p, k) == L(b, at * 8 + 128 - p - k, k)          \* k bits at p from the top
        group(i) == 2 * bps + ((i - 2) \div 3) * (2 + 3 * few)
        scale(i) == LET s == f(group(i), 2) IN IF s = 3 THEN 4 ELSE s
        mant(i) == IF i < 2 THEN f(i * bps, bps) ELSE f(group(i) + 2 + ((i - 2) % 3) * few, few)
        step(a, i) == LET q == (i % 2) + 1 m == mant(i)
                          base == lowest * P(scale(i))
                          up == m * P(scale(i)) + (IF base < lowest * 16 /\ a.nz[q] > base THEN a.nz[q] - base ELSE 0)
                          v == IF a.seen[q] THEN up ELSE IF m # 0 THEN m ELSE a.nz[q]
                      IN [seen |-> [a.seen EXCEPT ![q] = @ \/ m # 0],
                          nz |-> [a.nz EXCEPT ![q] = v],
                          out |-> Append(a.out, IF v < 15 THEN 0 ELSE IF bps = 12 /\ v - 15 > 16383 THEN 4095 ELSE v - 15)]
    IN FoldLeft(step, [seen |-> <<FALSE, FALSE>>, nz |-> <<0, 0>>, out |-> <<>>], Upto(n)).out
Pana6(b, w, h, bps) ==
    LET n == IF bps = 12 THEN 14 ELSE 11
        s == [k \in 0..((w * h) \div n - 1) |-> Pana6Block(b, k * 16, bps)]
    IN [ok |-> w % n = 0 /\ \A k \in DOMAIN s : \A i \in 1..n : In16(s[k][i]), out |-> [k \in 1..(w * h) |-> s[(k - 1) \div n][((k - 1) % n) + 1]]]
\* Panasonic 8: strips of row pairs coded as groups of two by two samples, column by column.  tab[c + 1]: length and code of category c.
\* The bits of every byte are reversed.  Curve: shift, start, base of six segments.
Pana8Curve(g, clip, x) ==
    LET i == IF x < g[2][2] THEN 1 ELSE IF x < g[3][2] THEN 2 ELSE IF x < g[4][2] THEN 3 ELSE IF x < g[5][2] THEN 4 ELSE IF x < g[6][2] THEN 5 ELSE 6
        d == x - g[i][2] k == g[i][1]
    IN Smaller(clip, CASE k = 31 -> IF i = 6 THEN 65535 ELSE g[i + 1][3]
                       [] k = 15 -> g[i][3]
                       [] k = 0 -> d + g[i][3]
                       [] k < 15 -> ((d + P(k - 1)) \div P(k)) + g[i][3]
                       [] OTHER -> d * P(k - 16) + g[i][3])
\* the strip's samples, row by row
Pana8Strip(bytes, tab, init, clip, w, h) ==
    LET b == [i \in DOMAIN bytes |-> LET x == bytes[i] IN FoldLeft(LAMBDA a, k : a + ((x \div P(k)) % 2) * P(7 - k), 0, Upto(8))]
        sym(p) == LET v == M(b, p, 16) hit == {c \in 0..16 : (v \div P(16 - tab[c + 1][1])) = tab[c + 1][2]} IN IF hit = {} THEN 17 ELSE CHOOSE c \in hit : TRUE
        place == <<1, 3, 2, 4>>
        one(a, k) == LET c == sym(a.p)
                         at == IF c = 17 THEN a.p ELSE a.p + tab[c + 1][1]
                         q == place[(k % 4) + 1]
                         v == Clip(a.cur[q] + Ext(M(b, at, Smaller(c, 16)), Smaller(c, 16)), 0, clip)
                     IN [p |-> at + Smaller(c, 16), ok |-> a.ok /\ c # 17, cur |-> [a.cur EXCEPT ![q] = v], line |-> [a.line EXCEPT ![(k \div 4) * 4 + q] = v]]
        pair(a, r) == LET s == FoldLeft(one, [p |-> a.p, ok |-> a.ok, cur |-> a.first, line |-> [i \in 1..(2 * w) |-> 0]], Upto(2 * w))
                      IN [p |-> s.p, ok |-> s.ok, first |-> SubSeq(s.line, 1, 4),
                          out |-> a.out \o [c \in 1..w |-> s.line[((c - 1) \div 2) * 4 + ((c - 1) % 2) + 1]] \o [c \in 1..w |-> s.line[((c - 1) \div 2) * 4 + ((c - 1) % 2) + 3]]]
    IN FoldLeft(pair, [p |-> 0, ok |-> TRUE, first |-> init, out |-> <<>>], Upto(h \div 2))
Pana8(x, w, h) ==
    LET s == [k \in DOMAIN x.strips |-> Pana8Strip(x.strips[k], x.tab, x.init, x.clip, x.ws[k], x.hs[k])]
        in(k, r, c) == r >= x.at[k][2] /\ r < x.at[k][2] + x.hs[k] /\ c >= x.at[k][1] /\ c < x.at[k][1] + x.ws[k]
        val(r, c) == LET k == CHOOSE k \in DOMAIN s : in(k, r, c) IN s[k].out[(r - x.at[k][2]) * x.ws[k] + c - x.at[k][1] + 1]
        g == [i \in 0..(w * h - 1) |-> val(i \div w, i % w)]
    IN [ok |-> \A k \in DOMAIN s : s[k].ok, out |-> [i \in 1..(w * h) |-> IF x.gamma = <<>> THEN g[i - 1] ELSE Pana8Curve(x.gamma, x.clip, g[i - 1])]]

\* Kodak 65000: segments of at most 256 samples: their lengths, then bits in 16 bit big endian units from the lowest
KodakSeg(bytes, at, n) ==
    LET len == [i \in 0..(n - 1) |-> IF i % 2 = 0 THEN By(bytes, at + i \div 2) % 16 ELSE By(bytes, at + i \div 2) \div 16]
        start == at + n \div 2
        u == Words(SubSeq(bytes, start + 1, Len(bytes)), 2)
        s == FoldLeft(LAMBDA a, i : [p |-> a.p + len[i], d |-> Append(a.d, Ext(L(u, a.p, len[i]), len[i]))], [p |-> 0, d |-> <<>>], Upto(n))
        pre == IF n % 8 = 4 THEN 16 ELSE 0
    IN [ok |-> n % 4 = 0 /\ \A i \in 0..(n - 1) : len[i] <= 12, d |-> s.d, next |-> start + pre \div 8 + 4 * ((Larger(s.p - pre, 0) + 31) \div 32)]
Kodak(bytes, w, h) ==
    LET s == FoldLeft(LAMBDA a, r :
            LET g == KodakSeg(bytes, a.at, w)
                v == FoldLeft(LAMBDA x, i : Append(x, g.d[i + 1] + (IF i >= 2 THEN x[i - 1] ELSE 0)), <<>>, Upto(w))
            IN IF ~a.ok THEN a ELSE [ok |-> g.ok /\ \A i \in 1..w : v[i] >= 0 /\ v[i] < 1024, at |-> g.next, out |-> a.out \o v],
            [ok |-> w <= 256, at |-> 0, out |-> <<>>], Upto(h))
    IN [ok |-> s.ok, out |-> s.out]

\* Pentax
PentaxDefault == Canon(<<0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0>>, <<3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12>>)
\* a table in the file: symbol s has the code cs[s + 1] (left aligned in 12 bits) of length ls[s + 1]
PefDiff(cs, ls, b, p) ==
    LET v == M(b, p, 12)
        hit == {s \in 1..Len(cs) : v \div P(12 - ls[s]) = cs[s] \div P(12 - ls[s])}
    IN IF hit = {} THEN [ok |-> FALSE, p |-> p, d |-> 0]
       ELSE LET s == CHOOSE x \in hit : TRUE IN [ok |-> TRUE, p |-> p + ls[s] + s - 1, d |-> Ext(M(b, p + ls[s], s - 1), s - 1)]
PefTable(t, be) ==
    LET u16(p) == IF be THEN By(t, p) * 256 + By(t, p + 1) ELSE By(t, p + 1) * 256 + By(t, p)
        n == (u16(0) + 12) % 16
    IN [cs |-> [i \in 1..n |-> u16(14 + 2 * (i - 1))], ls |-> [i \in 1..n |-> By(t, 14 + 2 * n + i - 1)]]
Pef(b, w, h) == Cross(b, w, h, LAMBDA x, p, r : Diff(PentaxDefault, x, p), 0, 65535)
PefWith(b, t, be, w, h) == LET q == PefTable(t, be) IN Cross(b, w, h, LAMBDA x, p, r : PefDiff(q.cs, q.ls, x, p), 0, 65535)

\* Nikon: six codes; after the split line of lossy files symbols have low bits which are not stored
NikonTree == <<
  <<Canon(<<0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0>>, <<5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12>>), <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>> >>,
  <<Canon(<<0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0>>, <<9, 10, 8, 7, 6, 5, 4, 3, 2, 1, 0, 11, 12, 12>>), <<3, 5, 3, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>> >>,
  <<Canon(<<0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<5, 4, 6, 3, 7, 2, 8, 1, 9, 0, 10, 11, 12>>), <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>> >>,
  <<Canon(<<0, 1, 4, 3, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0>>, <<5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14>>), <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>> >>,
  <<Canon(<<0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0>>, <<8, 12, 11, 10, 9, 7, 6, 5, 4, 3, 2, 1, 0, 13, 14>>), <<0, 5, 4, 3, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>> >>,
  <<Canon(<<0, 1, 4, 2, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0>>, <<7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14>>), <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>> >> >>
NikonDiff(tree, b, p) ==
    LET c == Code(tree[1], b, p)
    IN IF c.n = 0 \/ c.s > Len(tree[1].vals) THEN [ok |-> FALSE, p |-> p, d |-> 0]
       ELSE LET n == tree[1].vals[c.s] sh == tree[2][c.s]
                v == M(b, p + c.n, n - sh)
                \* the middle of the interval
                d == ((v * 2 + 1) * P(sh)) \div 2
                e == IF n = 0 THEN 0 ELSE IF d < P(n - 1) THEN d - (P(n) - (IF sh = 0 THEN 1 ELSE 0)) ELSE d
            IN [ok |-> TRUE, p |-> p + c.n + n - sh, d |-> e]
\* meta: the linearization block
NikonMeta(m, be, bps) ==
    LET u16(p) == IF be THEN By(m, p) * 256 + By(m, p + 1) ELSE By(m, p + 1) * 256 + By(m, p)
        v0 == By(m, 0) v1 == By(m, 1)
        o == IF v0 = 73 \/ v1 = 88 THEN 2112 ELSE 2
        n == u16(o + 8)
        real == IF v0 = 68 /\ v1 = 64 THEN bps - 2 ELSE bps
        step == IF n > 1 THEN P(real) \div (n - 1) ELSE 0
        pt(i) == u16(o + 10 + 2 * i)
        coarse == v0 = 68 /\ v1 \in {32, 64} /\ step > 0
        direct == ~coarse /\ v0 # 70 /\ n <= 16385
        at(i) == LET k == i \div step f == i % step IN (pt(k) * (step - f) + (IF f = 0 THEN 0 ELSE f * pt(k + 1))) \div step
    IN [up |-> <<u16(o), u16(o + 2), u16(o + 4), u16(o + 6)>>, real |-> real,
        split |-> IF coarse THEN u16(562) ELSE 0,
        size |-> IF direct THEN n ELSE P(real),
        tree |-> (IF v0 = 70 THEN 2 ELSE 0) + (IF bps = 14 THEN 3 ELSE 0),
        curve |-> IF coarse THEN [i \in 0..(P(real) - 1) |-> at(i)] ELSE IF direct THEN [i \in 0..(n - 1) |-> pt(i)] ELSE [i \in 0..(P(real) - 1) |-> i]]
Nef(b, mt, w, h) ==
    LET s == CrossFrom(b, w, h, LAMBDA x, p, r : NikonDiff(NikonTree[mt.tree + 1 + (IF mt.split > 0 /\ r >= mt.split THEN 1 ELSE 0)], x, p), mt.up, -32768, 65535)
        o == [k \in DOMAIN s.out |-> Clip(s.out[k], 0, P(mt.real) - 1)]
    IN [ok |-> s.ok /\ \A k \in DOMAIN o : o[k] < mt.size, out |-> o]

\* Canon CRW: blocks of 64 differences in zigzag-free run length coding, two bits may be stored apart
CrwFirst == <<
  Canon(
     <<0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
     <<4, 3, 5, 6, 2, 7, 1, 8, 9, 0, 10, 11, 255>>),
  Canon(
     <<0, 2, 2, 3, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0>>,
     <<3, 2, 4, 1, 5, 0, 6, 7, 9, 8, 10, 11, 255>>),
  Canon(
     <<0, 0, 6, 3, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
     <<6, 5, 7, 4, 8, 3, 9, 2, 0, 10, 1, 11, 255>>) >>
CrwSecond == <<
  Canon(
     <<0, 2, 2, 2, 1, 4, 2, 1, 2, 5, 1, 1, 0, 0, 0, 139>>,
     <<3, 4, 2, 5, 1, 6, 7, 8, 18, 19, 17, 20, 9, 21, 34, 0, 33, 22, 10, 240, 35, 23, 36, 49, 50, 24, 25, 51, 37, 65, 52, 66, 53,
       81, 54, 55, 56, 41, 121, 38, 26, 57, 86, 87, 40, 39, 82, 85, 88, 67, 118, 89, 119, 84, 97, 249, 113, 120, 117, 150, 151,
       73, 183, 83, 215, 116, 182, 152, 71, 72, 149, 105, 153, 145, 250, 184, 104, 181, 185, 214, 247, 216, 103, 70, 69, 148, 137,
       248, 129, 213, 246, 180, 136, 177, 42, 68, 114, 217, 135, 102, 212, 245, 58, 167, 115, 169, 168, 134, 98, 199, 101, 200,
       201, 161, 244, 209, 233, 90, 146, 133, 166, 231, 147, 232, 193, 198, 122, 100, 225, 74, 106, 230, 179, 241, 211, 165, 138,
       178, 154, 186, 132, 164, 99, 229, 197, 243, 210, 196, 130, 170, 218, 228, 242, 202, 131, 163, 162, 195, 234, 194, 226, 227,
       255, 255>>),
  Canon(
     <<0, 2, 2, 1, 4, 1, 4, 1, 3, 3, 1, 0, 0, 0, 0, 140>>,
     <<2, 3, 1, 4, 5, 18, 17, 6, 19, 7, 8, 20, 34, 9, 33, 0, 35, 21, 49, 50, 10, 22, 240, 36, 51, 65, 66, 25, 23, 37, 24, 81, 52,
       67, 82, 41, 53, 97, 57, 113, 98, 54, 83, 38, 56, 26, 55, 129, 39, 145, 121, 85, 69, 40, 114, 89, 161, 177, 68, 105, 84, 88,
       209, 250, 87, 225, 241, 185, 73, 71, 99, 106, 249, 86, 70, 168, 42, 74, 120, 153, 58, 117, 116, 134, 101, 193, 118, 182,
       150, 214, 137, 133, 201, 245, 149, 180, 199, 247, 138, 151, 184, 115, 183, 216, 217, 135, 167, 122, 72, 130, 132, 234, 244,
       166, 197, 90, 148, 164, 198, 146, 195, 104, 181, 200, 228, 229, 230, 233, 162, 163, 227, 194, 102, 103, 147, 170, 212, 213,
       231, 248, 136, 154, 215, 119, 196, 100, 226, 152, 165, 202, 218, 232, 243, 246, 169, 178, 179, 242, 210, 131, 186, 211,
       255, 255>>),
  Canon(
     <<0, 0, 6, 2, 1, 3, 3, 2, 5, 1, 2, 2, 8, 10, 0, 117>>,
     <<4, 5, 3, 6, 2, 7, 1, 8, 9, 18, 19, 20, 17, 21, 10, 22, 23, 240, 0, 34, 33, 24, 35, 25, 36, 50, 49, 37, 51, 56, 55, 52, 53,
       54, 57, 121, 87, 88, 89, 40, 86, 120, 39, 65, 41, 119, 38, 66, 118, 153, 26, 85, 152, 151, 249, 72, 84, 150, 137, 71, 183,
       73, 250, 117, 104, 182, 103, 105, 185, 184, 216, 82, 215, 136, 181, 116, 81, 70, 217, 248, 58, 214, 135, 69, 122, 149, 213,
       246, 134, 180, 169, 148, 83, 42, 168, 67, 245, 247, 212, 102, 167, 90, 68, 138, 201, 232, 200, 231, 154, 106, 115, 74, 97,
       199, 244, 198, 101, 233, 114, 230, 113, 145, 147, 166, 218, 146, 133, 98, 243, 197, 178, 164, 132, 186, 100, 165, 179, 210,
       129, 229, 211, 170, 196, 202, 242, 177, 228, 209, 131, 99, 234, 195, 226, 130, 241, 163, 194, 161, 193, 227, 162, 225, 255,
       255>>) >>
CrwBlock(t, b, p0) ==
    LET RECURSIVE go(_, _, _)
        go(p, i, d) ==
            IF i >= 64 THEN [ok |-> TRUE, p |-> p, d |-> d]
            ELSE LET c == Code(IF i > 0 THEN CrwSecond[t] ELSE CrwFirst[t], b, p)
                     leaf == (IF i > 0 THEN CrwSecond[t] ELSE CrwFirst[t]).vals[c.s]
                     q == p + c.n
                     n == leaf % 16
                     j == i + leaf \div 16
                 IN IF c.n = 0 THEN [ok |-> FALSE, p |-> p, d |-> d]
                    ELSE IF leaf = 0 /\ i > 0 THEN [ok |-> TRUE, p |-> q, d |-> d]
                    ELSE IF leaf = 255 THEN go(q, i + 1, d)
                    ELSE IF n = 0 THEN go(q, j + 1, d)
                    ELSE go(q + n, j + 1, IF j < 64 THEN [d EXCEPT ![j + 1] = Ext(M(b, q, n), n)] ELSE d)
    IN go(p0, 0, [i \in 1..64 |-> 0])
Crw(bytes, t, w, h) ==
    LET b == Unstuffed(bytes)
        blk(a, k) ==
            LET g == CrwBlock(t, b, a.p)
                d == [g.d EXCEPT ![1] = @ + a.carry]
                s == FoldLeft(LAMBDA x, i : LET n == k * 64 + i
                                                base == IF n % w = 0 THEN <<512, 512>> ELSE x.base
                                                v == base[(i % 2) + 1] + d[i + 1]
                                            IN [base |-> [base EXCEPT ![(i % 2) + 1] = v], out |-> Append(x.out, v)], [base |-> a.base, out |-> a.out], Upto(64))
            IN IF ~a.ok THEN a ELSE [ok |-> g.ok /\ \A i \in 1..64 : s.out[k * 64 + i] >= 0 /\ s.out[k * 64 + i] < 1024, p |-> g.p, carry |-> d[1], base |-> s.base, out |-> s.out]
        f == FoldLeft(blk, [ok |-> (w * h) % 64 = 0, p |-> 0, carry |-> 0, base |-> <<512, 512>>, out |-> <<>>], Upto((w * h) \div 64))
    IN [ok |-> f.ok, out |-> f.out]
\* low: one byte for four samples, the first in its lowest bits
CrwLow(s, low) == [s EXCEPT !.out = [k \in DOMAIN s.out |-> s.out[k] * 4 + ((By(low, (k - 1) \div 4) \div P(2 * ((k - 1) % 4))) % 4)]]

\* Leaf: strips of eight rows; the first two samples of a row from the row above
LeafStrip(bytes, t, w, n, start) ==
    LET b == Unstuffed(bytes)
        s == FoldLeft(LAMBDA a, k : LET r == k \div w c == k % w e == Diff(t[(c % 2) + 1], b, a.p)
                                        v == e.d + (IF c >= 2 THEN a.out[k - 1] ELSE IF r >= 1 THEN a.out[k - w + 1] ELSE start)
                                    IN IF ~a.ok THEN a ELSE [ok |-> e.ok /\ In16(v), p |-> e.p, out |-> Append(a.out, v)],
                      [ok |-> w % 2 = 0, p |-> 0, out |-> <<>>], Upto(w * n))
    IN [ok |-> s.ok, out |-> s.out]
\* interlaced: even lines from the top, odd lines from the bottom
Interlaced(out, w, h) == [k \in DOMAIN out |-> LET r == (k - 1) \div w IN
    LET src == IF r < (h + 1) \div 2 THEN 2 * r ELSE 2 * (h - 1 - r) + 1 IN out[src * w + ((k - 1) % w) + 1]]

\* a sample looked up in a table and dithered: not further from its entry than half the way to the neighbours
Near(tab, n, i, x) ==
    LET c == tab[i]
        lo == IF i > 0 THEN tab[i - 1] ELSE c
        hi == IF i < n - 1 THEN tab[i + 1] ELSE c
    IN IF c = 0 THEN x >= 0 /\ 2 * x <= hi - lo ELSE 4 * Mag(x - c) <= Mag(hi - lo) + 2
=============================================================================
