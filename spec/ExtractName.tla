---------------------------- MODULE ExtractName ----------------------------
(* The name under which a DNG remembers its original is data from an untrusted  *)
(* file. Extraction stores the original under that name in the output directory *)
(* the user has chosen, and nowhere else.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxComp, Comps   \* components a stored name is made of, "" gives // and a leading /

VARIABLES name, mode, over, out, st
vars == <<name, mode, over, out, st>>

Modes == {"dir", "batch", "sub", "file"}   \* extract F DIR; extract DIR DIR; a file in a sub-directory of a recursive run; extract F FILE
\* where output goes: the chosen directory is <<"out">> below the scratch root (for "sub" <<"out", "sub">>)
Home(m) == IF m = "sub" THEN <<"out", "sub">> ELSE <<"out">>

Special == {"", ".", ".."}
Normal(c) == c \notin Special
Plain(n) == Len(n) = 1 /\ Normal(n[1])
RECURSIVE Trim(_)
Trim(n) == IF n # <<>> /\ n[Len(n)] \in {"", "."} THEN Trim(SubSeq(n, 1, Len(n) - 1)) ELSE n
\* the last component which names something; "none" if there is none
LastName(n) == LET t == Trim(n) IN IF t = <<>> \/ t[Len(t)] = ".." THEN "none" ELSE t[Len(t)]

Fail == [k |-> "fail", at |-> <<>>]
At(p) == [k |-> "file", at |-> p]
Allowed(n, m) ==
  IF m = "file" THEN (IF LastName(n) = "none" THEN {Fail, At(<<"out", "given.bin">>)} ELSE {At(<<"out", "given.bin">>)})
  ELSE IF Plain(n) THEN {At(Home(m) \o <<n[1]>>)}
  ELSE {Fail} \cup (IF LastName(n) = "none" THEN {} ELSE {At(Home(m) \o <<LastName(n)>>)})

Init == /\ mode \in Modes /\ over \in BOOLEAN /\ name = <<>> /\ st = "write" /\ out = Fail
Grow == st = "write" /\ Len(name) < MaxComp /\ \E c \in Comps : name' = Append(name, c) /\ UNCHANGED <<mode, over, out, st>>
Extract == st = "write" /\ name # <<>> /\ st' = "done" /\ out' \in Allowed(name, mode) /\ UNCHANGED <<name, mode, over>>
Next == Grow \/ Extract
Spec == Init /\ [][Next]_vars

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* whatever the name says, the file is a direct child of the directory the user chose
Contained == st = "done" /\ out.k = "file" =>
  /\ Prefix(<<"out">>, out.at)
  /\ \A i \in 1..Len(out.at) : Normal(out.at[i])
  /\ mode # "file" => (Prefix(Home(mode), out.at) /\ Len(out.at) = Len(Home(mode)) + 1)
\* an ordinary name is kept
Kept == st = "done" /\ Plain(name) => out = At(IF mode = "file" THEN <<"out", "given.bin">> ELSE Append(Home(mode), name[1]))
Emit == st = "done" => PrintT(ToJson([name |-> name, mode |-> mode, over |-> over, out |-> out]))
=============================================================================
