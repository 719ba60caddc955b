------------------------------- MODULE Layout -------------------------------
(* How a raster is cut into blocks: an image of w x h pixels with cpp samples   *)
(* each is stored as a grid of blocks of tw x th pixels (a strip is a block as   *)
(* wide as the image, the last strip is only as high as the rest), row by row;   *)
(* within a block the samples follow in row order. Blocks at the right and at    *)
(* the lower edge carry padding which never becomes part of the image.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CeilDiv(a, b) == (a + b - 1) \div b
Cols(g) == CeilDiv(g.w, g.tw)
Rows(g) == CeilDiv(g.h, g.th)
NBlocks(g) == Cols(g) * Rows(g)
\* rows stored in block k
BlockRows(g, k) == IF g.strips /\ (k + 1) * g.th > g.h THEN g.h - k * g.th ELSE g.th
RowLen(g) == g.tw * g.cpp
BlockLen(g, k) == BlockRows(g, k) * RowLen(g)
\* the sample <<row, column>> of the image at position p of block k; columns count samples
At(g, k, p) == <<(k \div Cols(g)) * g.th + p \div RowLen(g), (k % Cols(g)) * RowLen(g) + (p % RowLen(g))>>
Inside(g, s) == s[1] < g.h /\ s[2] < g.w * g.cpp
\* and the inverse
BlockOf(g, s) == (s[1] \div g.th) * Cols(g) + s[2] \div RowLen(g)
PosIn(g, s) == (s[1] % g.th) * RowLen(g) + (s[2] % RowLen(g))
Samples(g) == (0..(g.h - 1)) \X (0..(g.w * g.cpp - 1))
=============================================================================
