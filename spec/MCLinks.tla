------------------------------- MODULE MCLinks -------------------------------
(* Reading a TIFF file whose directories refer to each other in any way: the chain   *)
(* pointers and sub directory pointers of a damaged (or hostile) file form an         *)
(* arbitrary graph, entries are damaged one by one, the file ends in the middle of a  *)
(* directory. The reader delivers every directory of the chain once, with every entry *)
(* and sub directory that is intact, and it stops.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Family, N
Out == N + 1                                   \* a pointer to nowhere: beyond the end of the file
Good == {"inline", "far", "unknown"}
Bad == {"beyond", "huge", "ones"}
Pts == 1..Out
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
D(e, nx, s, c) == [ent |-> e, next |-> nx, sub |-> s, cut |-> c]   \* cut: entries of the table that are left, Len(ent)+1: all and the pointer
Graphs ==
  CASE Family = "chain" -> [1..N -> {D(<<"inline">>, n, s, 2) : n \in 0..Out, s \in Seqs(Pts, 1)}]
    [] Family = "subs"  -> [1..N -> {D(<<"inline">>, n, s, 2) : n \in 0..Out, s \in Seqs(Pts, 2)}]
    [] Family = "entries" -> {<<D(e, 2, <<>>, Len(e) + 1), D(<<"inline">>, n, <<1>>, 2)>> : e \in Seqs(Good \cup Bad, 4) \ {<<>>}, n \in {0, 1}}
    [] Family = "cut"   -> {<<D(<<"far">>, 2, s, 2), D(e, n, <<>>, c)>> : e \in UNION {[1..m -> {"inline", "far", "huge"}] : m \in 1..3}, n \in {0, 1}, s \in {<<>>, <<2>>}, c \in 0..3}
    [] Family = "empty" -> {<<D(e, n, s, Len(e) + 1), D(f, 0, <<>>, Len(f) + 1)>> : e \in Seqs({"inline", "ones"}, 2), f \in Seqs({"inline", "beyond"}, 1), n \in {0, 2}, s \in Seqs({2}, 1)}
VARIABLES g, at, i, ents, chain, err, pc
vars == <<g, at, i, ents, chain, err, pc>>
Init == g \in Graphs /\ (\A k \in 1..Len(g) : g[k].cut <= Len(g[k].ent) + 1) /\ at = 1 /\ i = 1 /\ ents = {} /\ chain = <<>> /\ err = FALSE /\ pc = "entry"
Kept(k) == IF g[k].cut > Len(g[k].ent) THEN Len(g[k].ent) ELSE g[k].cut
Whole(k) == g[k].cut > Len(g[k].ent)
Intact(k) == {j \in 1..Kept(k) : g[k].ent[j] \in Good}
Visited == {chain[j].dir : j \in 1..Len(chain)}
\* sub directories of k that can be read; they are not searched for further ones
SubsOf(k) == IF Whole(k) THEN SelectSeq(g[k].sub, LAMBDA t : t # Out) ELSE <<>>
Entry ==
  /\ pc = "entry" /\ i <= Kept(at)
  /\ ents' = IF g[at].ent[i] \in Good THEN ents \cup {i} ELSE ents
  /\ i' = i + 1 /\ UNCHANGED <<g, at, chain, err, pc>>
\* the sub directory entry is the last one of the table
Leave ==
  /\ pc = "entry" /\ i > Kept(at)
  /\ LET empty == ents = {} /\ (g[at].sub = <<>> \/ ~Whole(at))
         nx == IF Whole(at) THEN g[at].next ELSE 0
     IN IF empty THEN /\ err' = TRUE /\ pc' = "done" /\ UNCHANGED <<at, i, ents, chain>>
        ELSE /\ chain' = Append(chain, [dir |-> at, ent |-> ents, sub |-> SubsOf(at), nsub |-> IF Whole(at) THEN Len(g[at].sub) ELSE 0])
             /\ IF nx = 0 \/ nx \in Visited \cup {at} THEN pc' = "done" /\ UNCHANGED <<at, i, ents, err>>
                ELSE IF nx = Out THEN pc' = "done" /\ err' = TRUE /\ UNCHANGED <<at, i, ents>>
                ELSE pc' = "entry" /\ at' = nx /\ i' = 1 /\ ents' = {} /\ UNCHANGED err
  /\ UNCHANGED g
Next == Entry \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")
Once == \A a, b \in 1..Len(chain) : a # b => chain[a].dir # chain[b].dir
\* everything intact that the chain reaches is delivered
Complete == pc = "done" /\ ~err => \A a \in 1..Len(chain) : LET k == chain[a].dir IN
              chain[a].ent = Intact(k) /\ (a < Len(chain) => g[k].next = chain[a + 1].dir)
SubEnts(k) == IF k = Out THEN {} ELSE Intact(k)
Result == [g |-> g, err |-> err, chain |-> chain, intact |-> [k \in 1..Len(g) |-> Intact(k)], whole |-> [k \in 1..Len(g) |-> Whole(k)]]
Emit == pc = "done" => PrintT(ToJson(Result))
=============================================================================
