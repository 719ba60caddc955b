------------------------------- MODULE MCPump -------------------------------
(* Every short schedule of operations on small byte sequences.  However the  *)
(* bits are asked for, they come in the same order, each of them once.       *)
EXTENDS Pump, TLC, Json

CONSTANTS Depth, Sizes
Datas == {<<>>, <<255>>, <<0, 255>>, <<1, 2, 3>>, <<171, 205, 18>>, <<129, 2, 132, 8>>, <<128, 0, 0, 0, 1>>,
          <<255, 0, 18, 52>>, <<255, 255, 0, 7, 9, 33>>, <<18, 52, 86, 255, 0, 120, 255, 217, 77>>,
          <<1, 35, 69, 103, 137, 171, 205, 239, 90, 165, 60>>, <<0, 0, 0, 0, 0, 0, 16, 0, 255, 0, 200, 7, 7>>,
          <<7, 255, 0, 255, 0, 255, 0, 255, 0, 250, 1, 255>>}
Names == {"g", "p", "s", "c", "z"}
Ops == {<<nm, n>> : nm \in Names \ {"z"}, n \in Sizes} \cup {<<"z", 0>>}

VARIABLES kind, data, s, pos, ops, outs, got, ok
vars == <<kind, data, s, pos, ops, outs, got, ok>>

Init ==
    /\ kind \in Kinds /\ data \in Datas
    /\ s = Ordered(kind, data) /\ pos = 0 /\ ops = <<>> /\ outs = <<>> /\ got = <<>> /\ ok = TRUE

Do(o) ==
    LET r == Result(kind, s, pos, o) IN
    /\ ok /\ Len(ops) < Depth
    /\ (o[1] = "z" => kind # "lsb")
    \* bits are dropped after having been looked at
    /\ (o[1] = "c" => Len(ops) > 0 /\ ops[Len(ops)][1] = "p" /\ ops[Len(ops)][2] >= o[2])
    /\ (o[1] = "z" => r.ok)
    /\ ops' = Append(ops, o)
    /\ ok' = r.ok
    /\ pos' = r.p
    /\ outs' = Append(outs, IF o[1] = "z" THEN [z |-> r.p - pos] ELSE [v |-> r.v])
    /\ got' = IF ~r.ok THEN got
              ELSE got \o [i \in 1..(r.p - pos) |-> StreamBit(kind, s, pos + i - 1)]
    /\ UNCHANGED <<kind, data, s>>
    /\ (r.ok /\ Len(ops') = Depth) => PrintT(ToJson([kind |-> kind, data |-> data, ops |-> ops', outs |-> outs']))

Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

\* the bits consumed are a prefix of the stream
Prefix == \A i \in 1..Len(got) : got[i] = StreamBit(kind, s, i - 1)
\* a peek does not move, and what follows begins with what was peeked
Peeks == \A i \in 1..(Len(ops) - 1) :
            (ok /\ ops[i][1] = "p" /\ ops[i + 1][1] = "g" /\ ops[i + 1][2] >= ops[i][2]) =>
                LET a == outs[i].v  b == outs[i + 1].v
                    d == IF kind = "lsb" THEN Len(b) - Len(a) ELSE 0
                IN \A j \in 1..Len(a) : a[j] = b[j + d]
\* stuffing never makes data longer, and no bit of a marker is delivered
Stuffed == kind = "jpeg" => Len(s) <= Len(data)
=============================================================================
