-------------------------------- MODULE MCCiff --------------------------------
(* Canon heap directories: every directory is a part of the heap with its own table;    *)
(* entries are values (in the table or in the heap part) or directories inside of it.  *)
(* A value is looked up in a directory first, then in its directories in table order.  *)
(* Damaged files refer to a directory more than once, or to the directory itself.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Family, N
Tags == {"cfa1", "make"}
\* entries: values v/w (in the table, in the heap) of two tags; directory entries: down to the next new directory, again to the last one, to itself
Ent == [t : Tags, how : {"table", "heap"}]
Down == [t : {"sub"}, how : {"a", "b"}]
Bad == {[t |-> "sub", how |-> "again"], [t |-> "sub", how |-> "self"], [t |-> "sub", how |-> "none"]}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
SubIdx(d) == {i \in 1..Len(d) : d[i].t = "sub" /\ d[i].how \in {"a", "b"}}
NoDup(d) == \A i, j \in 1..Len(d) : i # j /\ d[i].t = d[j].t => d[i].t = "sub"
\* dirs: sequence of entry lists; the k-th new-directory entry in depth first order is directory k + 1
VARIABLES dirs, stack, next, found, want, order, res
vars == <<dirs, stack, next, found, want, order, res>>
Two == {d \in Seqs(Ent \cup Down, N) : NoDup(d)}
One == {d \in Seqs({[t |-> "make", how |-> "heap"], [t |-> "cfa1", how |-> "table"], [t |-> "sub", how |-> "a"]} \cup Bad, N) : NoDup(d)}
Leafs == {<<>>, <<[t |-> "make", how |-> "heap"]>>, <<[t |-> "make", how |-> "table"], [t |-> "cfa1", how |-> "heap"]>>, <<[t |-> "cfa1", how |-> "table"]>>}
Mid == Leafs \cup {<<[t |-> "sub", how |-> "a"]>> \o l : l \in Leafs}
Subs(d) == Cardinality(SubIdx(d))
HasSub(d) == Len(d) > 0 /\ d[1].t = "sub"
Count(ds) == IF Len(ds) = 0 THEN 0 ELSE Subs(ds[1]) + Cardinality({k \in 2..Len(ds) : HasSub(ds[k])})
Fits(d, s) == LET m == Len(s) IN
  Subs(d) + Cardinality({k \in 1..m : HasSub(s[k])}) = m /\ \A k \in 1..m : Subs(d) + Cardinality({j \in 1..(k - 1) : HasSub(s[j])}) >= k
Trees == IF Family = "tree" THEN UNION {{<<d>> \o s : s \in {s \in UNION {[1..m -> Mid] : m \in Subs(d)..3} : Fits(d, s)}} : d \in Two}
         ELSE {<<d, e>> : d \in {d \in One : Subs(d) = 1}, e \in {d \in One : Subs(d) = 0}} \cup {<<d>> : d \in {d \in One : Subs(d) = 0}}
\* depth first look up of want, one directory at a time
Init == dirs \in Trees /\ want \in Tags /\ stack = <<1>> /\ next = 2 /\ found = 0 /\ order = <<>> /\ res = "run"
\* children of directory k in depth first numbering
RECURSIVE Span(_)
Span(k) == LET RECURSIVE G(_, _) G(n, at) == IF n = 0 THEN at ELSE G(n - 1, Span(at)) IN G(Subs(dirs[k]), k + 1)
Kids(k) == LET RECURSIVE G(_, _) G(n, at) == IF n = 0 THEN <<>> ELSE <<at>> \o G(n - 1, Span(at)) IN G(Subs(dirs[k]), k + 1)
Has(k) == \E i \in 1..Len(dirs[k]) : dirs[k][i].t = want
Visit ==
  /\ res = "run"
  /\ UNCHANGED <<dirs, want, next>>
  /\ IF stack = <<>> THEN res' = "none" /\ UNCHANGED <<stack, found, order>>
     ELSE LET k == Head(stack) IN
          /\ order' = Append(order, k)
          /\ IF Has(k) THEN found' = k /\ res' = "found" /\ stack' = stack
             ELSE stack' = Kids(k) \o Tail(stack) /\ UNCHANGED <<found, res>>
Spec == Init /\ [][Visit]_vars /\ WF_vars(Visit)
Terminates == <>(res # "run")
Once == \A i, j \in 1..Len(order) : i # j => order[i] # order[j]
\* nothing is missed
Exhaustive == res = "none" => \A k \in 1..Len(dirs) : ~Has(k)
Emit == res # "run" => PrintT(ToJson([dirs |-> dirs, kids |-> [k \in 1..Len(dirs) |-> Kids(k)], want |-> want, found |-> found]))
=============================================================================
