------------------------------ MODULE MCBatch ------------------------------
(* Scenario spaces for Batch.tla *)
EXTENDS Batch, FiniteSetsExt
CONSTANTS Cmd, MaxFiles, Big, Conc

F(d, s, e, c) == [dir |-> d, stem |-> s, ext |-> e, cls |-> c, orig |-> ""]
X(d, s, e, c, o) == [dir |-> d, stem |-> s, ext |-> e, cls |-> c, orig |-> o]

ConvPool == {F("", "a", "nef", "good"), F("", "a", "CR2", "good"), F("", "a_1", "arw", "good"), F("", "a", "dng", "good"),
             F("", "b", "nef", "bad"), F("", "b", "orf", "unsup"), F("", "p", "rw2", "panic"), F("", "a", "txt", "good"), F("", "a", "", "good"),
             F("", "e", "pef", "dangling"), F("", "z", "raf", "empty"), F("", "u", "nef", "unread"), F("", "d", "nef", "dir"),
             F("sub", "a", "NEF", "good"), F("sub", "a", "arw", "good"), F("sub", "b", "CR2", "bad"), F("", "x.y", "nef", "good"), F("", "q", "DNG", "good")}
ExtPool == {X("", "a", "dng", "good", "x.nef"), X("", "b", "dng", "good", "y.nef"), X("", "c", "DNG", "good", "x.nef"), X("", "d", "dng", "corrupt", "z.nef"),
            X("", "e", "dng", "plain", ""), X("", "f", "dng", "unsup", ""), X("", "g", "dng", "noname", ""), X("", "h", "nef", "good", "h.nef"),
            X("", "i", "dng", "good", "i.dng"), X("", "j", "dng", "dangling", ""), X("sub", "a", "dng", "good", "x.nef"), X("sub", "b", "dng", "good", "y.nef"),
            X("", "k", "dng", "corrupt", "x.nef")}
BigSets == IF Cmd = "extract" THEN {{X("", "a", "dng", "good", "x.nef"), X("", "c", "DNG", "good", "x.nef"), X("", "d", "dng", "corrupt", "z.nef"),
                                     X("", "e", "dng", "plain", ""), X("sub", "a", "dng", "good", "x.nef")}}
           ELSE IF Cmd = "process" THEN {{F("", "a", "nef", "good"), F("", "a", "CR2", "good"), F("", "b", "nef", "bad"), F("sub", "a", "NEF", "good")}}
           ELSE {{F("", "a", "nef", "good"), F("", "a", "CR2", "good"), F("", "a_1", "arw", "good"), F("", "b", "nef", "bad"), F("sub", "a", "NEF", "good")},
                 {F("", "a", "nef", "good"), F("", "a", "CR2", "good"), F("", "p", "rw2", "panic"), F("", "a", "txt", "good"), F("", "x.y", "nef", "good")}}
NoSets == {}
Pool == IF Cmd = "extract" THEN ExtPool ELSE ConvPool

OutFile(root, n) == root \o "/" \o n \o (IF Cmd = "convert" THEN ".dng" ELSE IF Cmd = "process" THEN ".tif" ELSE ".nef")
LinkSrc == IF Cmd = "extract" THEN "in/a.dng" ELSE "in/a.nef"
PreKinds(root) ==
  LET a == IF Cmd = "extract" THEN "x" ELSE "a"
  IN {{}, {[path |-> OutFile(root, a), kind |-> "old"]}, {[path |-> OutFile(root, a), kind |-> "dir"]}}
     \cup (IF Cmd = "extract" THEN {{[path |-> OutFile(root, "z"), kind |-> "old"]}} ELSE {{[path |-> OutFile(root, "a_1"), kind |-> "old"]}, {[path |-> OutFile(root, "b"), kind |-> "old"]}})
     \cup (IF root = "out" THEN {{[path |-> "out/sub", kind |-> "old"]}} ELSE {})
     \cup (IF Cmd = "convert" THEN {{[path |-> OutFile(root, a), kind |-> "dangling"]}} ELSE {})
     \* the output name is a symbolic or a hard link to an input file
     \cup (IF root = "out" THEN {{[path |-> OutFile(root, a), kind |-> "link"]}, {[path |-> OutFile(root, a), kind |-> "src:" \o LinkSrc]}} ELSE {})

\* a pre-existing output must not coincide with a source file
\* (a directory that has exactly the mirrored name of a source receives the output inside: left out)
Fits(fsset, pre) == \A p \in pre : /\ \A f \in fsset : Path(f) # p.path /\ (p.kind = "dir" => "out/" \o Rel(f) # p.path)
                                   /\ (p.kind \in {"link", "src:" \o LinkSrc} => \E f \in fsset : Path(f) = LinkSrc)

DirScn ==
  LET sets == {x \in (UNION {kSubset(k, Pool) : k \in 0..MaxFiles}) \cup Big : \A f, g \in x : Path(f) = Path(g) => f = g}
  IN {s \in {[cmd |-> Cmd, mode |-> "dir", files |-> x, pre |-> p, same |-> sm, rec |-> r, force |-> fo, target |-> "", conc |-> c, skip |-> sk] :
        x \in sets, p \in PreKinds("out") \cup PreKinds("in"), sm \in BOOLEAN, r \in BOOLEAN, fo \in BOOLEAN,
        c \in (IF Cmd = "convert" THEN Conc ELSE IF Cmd = "process" THEN {8} ELSE {1}), sk \in (IF Cmd = "extract" THEN BOOLEAN ELSE {FALSE})} :
      /\ \A q \in s.pre : q.path \in {OutRoot(s) \o SubSeq(q.path, IF s.same THEN 3 ELSE 4, Len(q.path))}
      /\ (s.pre = {} \/ (LET q == CHOOSE q \in s.pre : TRUE IN SubSeq(q.path, 1, 2) = (IF s.same THEN "in" ELSE "ou")))
      /\ Fits(s.files, s.pre)
      \* a DNG in the input directory is an input, not just an old output
      /\ (Cmd = "convert" /\ s.same => \A q \in s.pre : q.kind = "dir")
      /\ (Cardinality(Inputs(s)) <= 1 => s.conc = (IF Cmd = "convert" THEN (CHOOSE x \in Conc : \A y \in Conc : x <= y) ELSE s.conc))}

FileScn ==
  {s \in {[cmd |-> Cmd, mode |-> "file", files |-> {f}, pre |-> p, same |-> sm, rec |-> FALSE, force |-> fo, target |-> t, conc |-> 1, skip |-> FALSE] :
      f \in {g \in Pool : g.dir = "" /\ g.cls \notin {"dir", "dangling"}}, p \in PreKinds("out"), sm \in BOOLEAN, fo \in BOOLEAN,
      t \in (IF Cmd = "extract" THEN {"", "x.nef", "n"} ELSE {"", "a", "n.tiff", "x.y.dng", "n.DNG"})} :
    /\ Fits(s.files, s.pre) /\ (s.same => s.pre = {})}
UsageTable == {[usage |-> TRUE, in |-> i, out |-> o, exit |-> UsageExit(i, o)] : i \in {"absent", "file", "dir"}, o \in {"absent", "file", "dir"}}
ASSUME \A r \in UsageTable : PrintT(ToJson(r))

MCScenarios == DirScn \cup FileScn
=============================================================================
