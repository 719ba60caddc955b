------------------------------- MODULE Batch -------------------------------
(* The batch commands of dnglab: convert, process-raw and extract.              *)
(* One run: scan the input, plan one job per image, execute the jobs (up to     *)
(* `conc` of them interleave), account for them and exit.  The file system is a *)
(* function from paths to what is stored there.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Scenarios,      \* the set of scenarios to explore
          Racer           \* TRUE: another process may create one of our outputs at any moment

VARIABLES scn, fs, fs0, order, jobs, chunk, phase, raced, exit, dummy
vars == <<scn, fs, fs0, order, jobs, chunk, phase, raced, exit, dummy>>

Absent == "absent"
RawExt == {"nef", "NEF", "CR2", "arw", "dng", "DNG", "orf", "raf", "pef", "rw2"}
IsDng == {"dng", "DNG"}

Base(f) == IF f.ext = "" THEN f.stem ELSE f.stem \o "." \o f.ext
Rel(f) == IF f.dir = "" THEN Base(f) ELSE f.dir \o "/" \o Base(f)
Path(f) == "in/" \o Rel(f)
OutRoot(s) == IF s.same THEN "in" ELSE "out"
OutDir(s, f) == IF f.dir = "" THEN OutRoot(s) ELSE OutRoot(s) \o "/" \o f.dir

Get(m, p) == IF p \in DOMAIN m THEN m[p] ELSE Absent
Put(m, p, c) == [q \in DOMAIN m \cup {p} |-> IF q = p THEN c ELSE m[q]]
Drop(m, p) == [q \in DOMAIN m \ {p} |-> m[q]]
There(m, p) == Get(m, p) # Absent               \* the name is taken
Exists(m, p) == Get(m, p) \notin {Absent, "dangling"}  \* what Path::exists sees

(* ------------------------------------------------------------------ input *)
InitFs(s) ==
  LET src == [p \in {Path(f) : f \in s.files} |->
                LET f == CHOOSE f \in s.files : Path(f) = p
                IN IF f.cls = "dangling" THEN "dangling" ELSE IF f.cls = "dir" THEN "dir" ELSE "src:" \o p]
      dirs == {"in"} \cup (IF s.same THEN {} ELSE {"out"}) \cup {"in/" \o f.dir : f \in {g \in s.files : g.dir # ""}}
      pre == {p.path : p \in s.pre}
  IN [p \in DOMAIN src \cup dirs \cup pre |->
        IF p \in pre /\ p \notin DOMAIN src THEN (CHOOSE x \in s.pre : x.path = p).kind
        ELSE IF p \in DOMAIN src THEN src[p] ELSE "dir"]

\* Which entries of a directory are inputs
Wanted(s, f) ==
  /\ f.cls # "dir"
  /\ f.ext \in (IF s.cmd = "extract" THEN IsDng ELSE RawExt)
  /\ f.dir = "" \/ s.rec
Inputs(s) == IF s.mode = "file" THEN s.files ELSE {f \in s.files : Wanted(s, f)}

(* ------------------------------------------------------------------- plan *)
OutExt(s) == IF s.cmd = "convert" THEN "dng" ELSE "tif"

\* Target directory and stem of the first choice name
TargetStem(t) == CASE t = "a" -> "a" [] t = "n.tiff" -> "n" [] t = "x.y.dng" -> "x.y" [] t = "n.DNG" -> "n" [] OTHER -> t
Stem(s, f) == IF s.mode = "file" /\ s.target # "" THEN TargetStem(s.target) ELSE f.stem
Name(s, f, k) == OutDir(s, f) \o "/" \o Stem(s, f) \o (IF k = 0 THEN "" ELSE "_" \o ToString(k)) \o "." \o OutExt(s)

ScanFails(f) == f.cls \in {"plain", "bad", "unsup", "empty", "noname", "dangling", "panic"}
ScanErr(f) == IF f.cls = "dangling" THEN 4 ELSE 3

RECURSIVE Plan(_, _, _, _)
Plan(s, todo, claimed, acc) ==
  IF todo = <<>> THEN acc
  ELSE LET f == Head(todo) IN
       IF s.cmd = "extract" THEN
         LET arg == OutRoot(s) \o "/" \o s.target
             into == s.mode = "file" /\ s.target # "" /\ Get(InitFs(s), arg) = "dir"   \* OUTPUT is an existing directory
             out == IF into THEN arg \o "/" \o f.orig ELSE IF s.mode = "file" /\ s.target # "" THEN arg ELSE OutDir(s, f) \o "/" \o f.orig
             taken == out \in claimed \/ out \in {Path(g) : g \in {h \in Inputs(s) : ~ScanFails(h)}}
         IN Plan(s, Tail(todo), claimed \cup {out},
                 Append(acc, [f |-> f, out |-> out, dir |-> OutDir(s, f), rep |-> s.force /\ ~taken, st |-> "todo", err |-> 0]))
       ELSE
         LET k == CHOOSE k \in 0..10 : Name(s, f, k) \notin claimed /\ \A j \in 0..(k - 1) : Name(s, f, j) \in claimed
             out == Name(s, f, k)
         IN Plan(s, Tail(todo), claimed \cup {out},
                 Append(acc, [f |-> f, out |-> out, dir |-> OutDir(s, f),
                              rep |-> s.force /\ out \notin {Path(g) : g \in Inputs(s)}, st |-> "todo", err |-> 0]))

Orders(S) == {o \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN o : i # j => o[i] # o[j]}

Init ==
  /\ scn \in Scenarios
  /\ fs = InitFs(scn) /\ fs0 = fs
  /\ order = <<>> /\ jobs = <<>> /\ chunk = 0 /\ phase = "scan" /\ raced = ~Racer /\ exit = -1
  /\ dummy = 0

\* Entries come in whatever order the file system lists them
Scan ==
  /\ phase = "scan"
  /\ order' \in Orders(Inputs(scn))
  /\ phase' = "plan"
  /\ UNCHANGED <<scn, fs, fs0, jobs, chunk, raced, exit, dummy>>

MkDirs(s, js, m) ==
  LET want == {js[i].dir : i \in {k \in DOMAIN js : js[k].dir # OutRoot(s)}}
      new == {d \in want : ~There(m, d)}
  IN [p \in DOMAIN m \cup new |-> IF p \in new THEN "dir" ELSE m[p]]

PlanJobs ==
  /\ phase = "plan"
  /\ LET bad == IF scn.cmd = "extract" THEN SelectSeq(order, LAMBDA f : ScanFails(f)) ELSE <<>>
         good == IF scn.cmd = "extract" THEN SelectSeq(order, LAMBDA f : ~ScanFails(f)) ELSE order
         js == Plan(scn, good, {}, <<>>)
     IN /\ jobs' = [i \in 1..Len(bad) |-> [f |-> bad[i], out |-> "", dir |-> OutRoot(scn), rep |-> FALSE, st |-> "fail", err |-> ScanErr(bad[i])]] \o js
        /\ fs' = MkDirs(scn, js, fs)
  /\ phase' = "run" /\ chunk' = 1
  /\ UNCHANGED <<scn, fs0, order, raced, exit, dummy>>

(* ---------------------------------------------------------------- execute *)
InChunk(i) == ((i - 1) \div scn.conc) + 1 = chunk
Set(i, st, err) == jobs' = [jobs EXCEPT ![i].st = st, ![i].err = err]

DecodeErr(f) == CASE f.cls = "bad" -> 2 [] f.cls = "panic" -> 2 [] f.cls = "dangling" -> 2 [] f.cls = "unread" -> 2
                  [] f.cls = "unsup" -> 7 [] f.cls = "empty" -> 7 [] f.cls = "corrupt" -> 4 [] OTHER -> 0

\* -f: make room / refuse
Begin(i) ==
  /\ phase = "run" /\ InChunk(i) /\ jobs[i].st = "todo"
  /\ LET j == jobs[i] IN
     IF scn.cmd = "extract" /\ ~j.rep /\ Exists(fs, j.out) THEN Set(i, "fail", 6) /\ fs' = fs
     ELSE IF j.rep /\ Exists(fs, j.out) THEN
          IF Get(fs, j.out) = "dir" THEN Set(i, "fail", 4) /\ fs' = fs
          ELSE Set(i, "room", 0) /\ fs' = Drop(fs, j.out)
     ELSE Set(i, "room", 0) /\ fs' = fs
  /\ UNCHANGED <<scn, fs0, order, chunk, phase, raced, exit, dummy>>

\* exclusive creation
Create(i) ==
  /\ phase = "run" /\ InChunk(i) /\ jobs[i].st = "room"
  /\ LET j == jobs[i] IN
     IF Get(fs, j.dir) # "dir" THEN Set(i, "fail", 4) /\ fs' = fs
     ELSE IF There(fs, j.out) THEN Set(i, "fail", 6) /\ fs' = fs
     ELSE Set(i, "open", 0) /\ fs' = Put(fs, j.out, "partial")
  /\ UNCHANGED <<scn, fs0, order, chunk, phase, raced, exit, dummy>>

\* decode and write, or clean up
Finish(i) ==
  /\ phase = "run" /\ InChunk(i) /\ jobs[i].st = "open"
  /\ LET j == jobs[i] IN
     IF DecodeErr(j.f) = 0 \/ (j.f.cls = "corrupt" /\ scn.skip)
     THEN Set(i, "ok", 0) /\ fs' = Put(fs, j.out, "of:" \o Path(j.f))
     ELSE Set(i, "fail", DecodeErr(j.f)) /\ fs' = Drop(fs, j.out)
  /\ UNCHANGED <<scn, fs0, order, chunk, phase, raced, exit, dummy>>

Settled(i) == jobs[i].st \in {"ok", "fail"}

NextChunk ==
  /\ phase = "run"
  /\ \A i \in DOMAIN jobs : InChunk(i) => Settled(i)
  /\ \E i \in DOMAIN jobs : ~Settled(i)
  /\ chunk' = chunk + 1
  /\ UNCHANGED <<scn, fs, fs0, order, jobs, phase, raced, exit, dummy>>

\* another process creates one of our outputs
Race ==
  /\ phase = "run" /\ ~raced
  /\ \E i \in DOMAIN jobs : jobs[i].out # "" /\ ~There(fs, jobs[i].out) /\ fs' = Put(fs, jobs[i].out, "theirs")
  /\ raced' = TRUE
  /\ UNCHANGED <<scn, fs0, order, jobs, chunk, phase, exit, dummy>>

FirstErr == IF \E i \in DOMAIN jobs : jobs[i].st = "fail"
            THEN jobs[CHOOSE i \in DOMAIN jobs : jobs[i].st = "fail" /\ \A k \in 1..(i - 1) : jobs[k].st = "ok"].err
            ELSE 0

Done ==
  /\ phase = "run"
  /\ \A i \in DOMAIN jobs : Settled(i)
  /\ phase' = "done" /\ exit' = FirstErr
  /\ UNCHANGED <<scn, fs, fs0, order, jobs, chunk, raced, dummy>>

Next == Scan \/ PlanJobs \/ NextChunk \/ Race \/ Done \/ \E i \in DOMAIN jobs : Begin(i) \/ Create(i) \/ Finish(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------------------------------------- properties *)
TypeOK == phase \in {"scan", "plan", "run", "done"} /\ exit \in -1..99

\* P08: without -f nothing that existed before is changed or removed
NoClobber == ~scn.force => \A p \in DOMAIN fs0 : Get(fs, p) = fs0[p]
\* ... and never is a file of another process
TheirsStays == raced /\ Racer /\ ~scn.force => \E i \in DOMAIN jobs : Get(fs, jobs[i].out) = "theirs" \/ ~Racer
\* P12: the inputs of the run survive it, -f or not
InputsStay == \A f \in Inputs(scn) : Get(fs, Path(f)) = fs0[Path(f)]
\* P09: no two sources share an output
Distinct == scn.cmd # "extract" => \A i, j \in DOMAIN jobs : i # j => jobs[i].out # jobs[j].out
OutputsRight == phase = "done" => \A i \in DOMAIN jobs : jobs[i].st = "ok" => Get(fs, jobs[i].out) = "of:" \o Path(jobs[i].f)
\* P10: nothing partial is left behind
NoPartial == phase = "done" => \A p \in DOMAIN fs : fs[p] # "partial"
FailedLeavesNothing == phase = "done" => \A p \in DOMAIN fs : p \notin DOMAIN fs0 =>
    \/ fs[p] \in {"dir", "theirs"}
    \/ \E i \in DOMAIN jobs : jobs[i].st = "ok" /\ jobs[i].out = p
\* P11: one job per input, and one bad file never harms another
Accounted == phase = "done" => Len(jobs) = Cardinality(Inputs(scn)) /\ (exit = 0 <=> \A i \in DOMAIN jobs : jobs[i].st = "ok")
Isolation == phase = "done" /\ ~Racer => \A i \in DOMAIN jobs :
    (DecodeErr(jobs[i].f) = 0 /\ jobs[i].err \notin {4, 6}) => jobs[i].st = "ok" \/ (scn.cmd = "extract" /\ jobs[i].err \in {3, 4})
Ends == <>(phase = "done")

\* Arguments that do not describe a run: exit status by what INPUT and OUTPUT are
UsageExit(in, out) == CASE in = "absent" -> 5
                       [] in = "dir" /\ out = "absent" -> 5
                       [] in = "dir" /\ out = "file" -> 1
                       [] OTHER -> 0

Emit == phase = "done" =>
  PrintT(ToJson([scn |-> scn, exit |-> exit, ok |-> Cardinality({i \in DOMAIN jobs : jobs[i].st = "ok"}), total |-> Len(jobs),
                 failed |-> {Path(jobs[i].f) : i \in {k \in DOMAIN jobs : jobs[k].st = "fail"}}, fs |-> fs]))
=============================================================================
