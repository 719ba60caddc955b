------------------------------ MODULE Packing ------------------------------
(* Where the samples of an uncompressed camera raster are stored.            *)
(*                                                                           *)
(* A bit of the file is addressed by 8 * byte + p, p = 0 being the most      *)
(* significant bit of the byte.  Place gives the address of bit b (0 = least *)
(* significant) of the sample in row r and column c.  The numbers are those  *)
(* of rawler::decode_unwrapped, "p8" .. "p16b" are the packed strips of a    *)
(* DNG or TIFF file (PackedDecompressor).                                    *)
EXTENDS Naturals, Sequences, FiniteSets

Ceil(a, d) == (a + d - 1) \div d

\* stream position -> address
Msb(n) == n
Lsb(n) == 8 * (n \div 8) + (7 - (n % 8))
\* the bytes of words of W bytes are stored in reverse order
Swapped(W, a) ==
    LET byte == a \div 8
        new == W * (byte \div W) + (W - 1 - (byte % W))
    IN 8 * new + (a % 8)

Camera == {"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14",
           "15", "16", "17", "18", "19", "20"}
Strips == {"p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12",
           "p13", "p14", "p15", "p16l", "p16b"}

Bits(l) ==
    CASE l \in {"1", "2", "p10"} -> 10
      [] l \in {"3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "p12"} -> 12
      [] l \in {"16", "17", "p14"} -> 14
      [] l \in {"18", "19", "20", "p16l", "p16b"} -> 16
      [] l = "p1" -> 1 [] l = "p2" -> 2 [] l = "p3" -> 3 [] l = "p4" -> 4 [] l = "p5" -> 5
      [] l = "p6" -> 6 [] l = "p7" -> 7 [] l = "p8" -> 8 [] l = "p9" -> 9 [] l = "p11" -> 11
      [] l = "p13" -> 13 [] l = "p15" -> 15

\* images the layout is defined for
Fits(l, w, h) ==
    CASE l = "1" -> w % 8 = 0
      [] l \in {"4"} -> (w * h) % 4 = 0 /\ w % 2 = 0
      [] l \in {"6"} -> (w * h) % 8 = 0 /\ w % 2 = 0
      [] l \in {"5", "11"} -> w % 2 = 0
      [] l \in {"9", "10"} -> w % 2 = 0 /\ h > 1
      [] l \in {"7", "8"} -> w % 10 = 0
      [] OTHER -> TRUE

\* 16 bit words: address of bit n of the word (0 = least significant)
WordLE(k, n) == IF n < 8 THEN 16 * k + 7 - n ELSE 16 * k + 8 + 15 - n
WordBE(k, n) == 16 * k + 15 - n

\* first byte of the second field of an interlaced image
SecondField(l, w, h) ==
    LET half == (Ceil(h, 2) * w * 12) \div 8
    IN IF l = "9" THEN 2048 * ((half \div 2048) + 1) ELSE half

Place(l, w, h, r, c, b) ==
    LET n == r * w + c
        m == Bits(l) - 1 - b            \* distance from the most significant bit
        tight == 8 * Ceil(w * Bits(l), 8)
    IN CASE l = "1" -> Swapped(2, n * 10 + m)
         [] l \in {"4"} -> Swapped(2, n * 12 + m)
         [] l \in {"6"} -> Swapped(4, n * 12 + m)
         [] l = "5" -> 8 * r * (2 * Ceil(w * 12, 16)) + c * 12 + m
         [] l = "7" -> 128 * (r * (w \div 10) + (c \div 10)) + Lsb((c % 10) * 12 + b)
         [] l = "8" -> 128 * (r * (w \div 10) + (c \div 10)) + (c % 10) * 12 + m
         [] l \in {"9", "10"} ->
              8 * (IF r % 2 = 0 THEN 0 ELSE SecondField(l, w, h)) + (r \div 2) * w * 12 + c * 12 + m
         [] l = "11" -> Lsb(n * 12 + b)
         [] l \in {"12", "16", "18", "p16l"} -> WordLE(n, b)
         [] l \in {"13", "17", "20", "p16b"} -> WordBE(n, b)
         [] l = "14" -> WordBE(n, b + 4)
         [] l = "15" -> WordLE(n, b + 4)
         [] l = "19" -> WordLE(2 * r * w + c, b)
         [] OTHER -> r * tight + c * Bits(l) + m

\* bytes of the image: the last row is stored with its padding
Need(l, w, h) ==
    LET bytes == {Place(l, w, h, r, c, b) \div 8 : r \in {h - 1, IF h > 1 THEN h - 2 ELSE 0}, c \in 0..(w - 1), b \in 0..(Bits(l) - 1)}
    IN CASE l = "5" -> h * 2 * Ceil(w * 12, 16)
         [] l \in {"7", "8"} -> h * 16 * (w \div 10)
         [] l = "19" -> h * w * 4
         [] OTHER -> 1 + (CHOOSE x \in bytes : \A y \in bytes : y <= x)
=============================================================================
