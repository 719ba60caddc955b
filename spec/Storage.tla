------------------------------ MODULE Storage ------------------------------
(* How unsigned samples are stored in an uncompressed TIFF or DNG data block:    *)
(* 8 bit samples as bytes, 16 bit samples in the byte order of the file, all     *)
(* other depths as a bit string, most significant bit first whatever the byte    *)
(* order, and every row starts on a byte boundary.                                *)
EXTENDS Layout, Integers
Bit(v, i) == (v \div 2^i) % 2
RowBits(row, bps) == [k \in 1..(Len(row) * bps) |-> Bit(row[((k - 1) \div bps) + 1], bps - 1 - ((k - 1) % bps))]
RowBytes(row, bps, e) ==
  IF bps = 8 THEN row
  ELSE IF bps = 16 THEN [k \in 1..(2 * Len(row)) |-> LET v == row[((k - 1) \div 2) + 1] hi == (k % 2 = 1) = (e = "big") IN IF hi THEN v \div 256 ELSE v % 256]
  ELSE LET b == RowBits(row, bps)
           n == CeilDiv(Len(b), 8)
           at(k) == IF k <= Len(b) THEN b[k] ELSE 0
           byte(j) == at(8*j + 1) * 128 + at(8*j + 2) * 64 + at(8*j + 3) * 32 + at(8*j + 4) * 16 + at(8*j + 5) * 8 + at(8*j + 6) * 4 + at(8*j + 7) * 2 + at(8*j + 8)
       IN [j \in 1..n |-> byte(j - 1)]
\* and back
RowLenBytes(n, bps) == CeilDiv(n * bps, 8)
RECURSIVE FromBits(_, _, _, _)
FromBits(bytes, from, bps, acc) == IF bps = 0 THEN acc ELSE FromBits(bytes, from + 1, bps - 1, 2 * acc + Bit(bytes[(from \div 8) + 1], 7 - (from % 8)))
RowSamples(bytes, n, bps, e) ==
  IF bps = 8 THEN [k \in 1..n |-> bytes[k]]
  ELSE IF bps = 16 THEN [k \in 1..n |-> IF e = "big" THEN bytes[2*k - 1] * 256 + bytes[2*k] ELSE bytes[2*k] * 256 + bytes[2*k - 1]]
  ELSE [k \in 1..n |-> FromBits(bytes, (k - 1) * bps, bps, 0)]
RECURSIVE Concat(_, _, _)
Concat(f, i, n) == IF i > n THEN <<>> ELSE f[i] \o Concat(f, i + 1, n)
=============================================================================
