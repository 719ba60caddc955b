----------------------------- MODULE MCPacking -----------------------------
(* A writer that stores one row of samples after the other.  No bit is used  *)
(* twice, everything stays within the bytes the layout needs, layouts        *)
(* without padding use every bit.                                            *)
EXTENDS Packing, TLC, Json

CONSTANTS Widths, Hmax, Layouts

VARIABLES l, w, h, row, used, need, last
vars == <<l, w, h, row, used, need, last>>

Init ==
    /\ l \in Layouts
    /\ w \in Widths
    /\ h \in 1..Hmax
    /\ Fits(l, w, h)
    /\ row = 0
    /\ used = {}
    /\ last = {}
    /\ need = Need(l, w, h)

RowBits(r) == {Place(l, w, h, r, c, b) : c \in 0..(w - 1), b \in 0..(Bits(l) - 1)}

Put ==
    /\ row < h
    /\ row' = row + 1
    /\ last' = RowBits(row)
    /\ used' = used \cup last'
    /\ UNCHANGED <<l, w, h, need>>
    /\ PrintT(ToJson([l |-> l, w |-> w, h |-> h, row |-> row, need |-> need, bits |-> Bits(l),
                      at |-> [i \in 1..(w * Bits(l)) |->
                                Place(l, w, h, row, (i - 1) \div Bits(l), (Bits(l) - 1) - ((i - 1) % Bits(l)))]]))

Next == Put
Spec == Init /\ [][Next]_vars

\* every sample has bits of its own
Injective == Cardinality(used) = row * w * Bits(l)
Within == \A a \in last : a < 8 * need
\* nothing is wasted but the rest of the last byte
Tight == (row = h /\ l \in {"1", "4", "6", "11", "18", "20", "p8", "p16l", "p16b"})
            => need = Ceil(Cardinality(used), 8)
=============================================================================
