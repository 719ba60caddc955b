-------------------------------- MODULE Ftp --------------------------------
(***************************************************************************)
(* The embedded FTP server: control sessions, data connections and the     *)
(* file tree they act on.                                                   *)
(*                                                                          *)
(* The tree is rooted at an (unnamed) jail directory <<>>; the directory    *)
(* served to clients is <<"R">>.  Everything else below <<>> is OUTSIDE the *)
(* served root and must never change nor be read.  Nodes are "none", "dir", *)
(* "link" (target given by LinkTarget) or a file content identifier.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
  Clients,      \* set of client names
  Anonymous,    \* BOOLEAN: anonymous login permitted
  Users,        \* set of [name, pass] records; pass = "" means no password
  Commands,     \* set of commands explored (records with field op, see Do)
  InitFs,       \* function: path -> node
  LinkTarget,   \* function: link path -> path from the jail
  Contents,     \* set of file contents that may be uploaded
  MaxSteps      \* bound on the length of histories (0 = unbounded)

VARIABLES fs, ses, obs, steps
vars == <<fs, ses, obs, steps>>

ERR == <<"!">>
RootPath == <<"R">>
IsFile(n) == n \notin {"none", "dir", "link"}
NodeAt(f, p) == IF p \in DOMAIN f THEN f[p] ELSE "none"
InRoot(p) == Len(p) >= 1 /\ p[1] = "R"
Under(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Children(f, p) == {q \in DOMAIN f : Len(q) = Len(p) + 1 /\ Under(p, q) /\ f[q] # "none"}

(* Physical path resolution, following links; ERR when it does not exist. *)
RECURSIVE Walk(_, _, _, _)
Walk(f, cur, comps, fuel) ==
  IF comps = <<>> THEN cur
  ELSE IF fuel = 0 \/ NodeAt(f, cur) # "dir" THEN ERR
  ELSE LET h == Head(comps)
           t == Tail(comps)
       IN  IF h = "." THEN Walk(f, cur, t, fuel)
           ELSE IF h = ".." THEN (IF cur = <<>> THEN ERR ELSE Walk(f, Front(cur), t, fuel))
           ELSE LET n == Append(cur, h)
                IN  CASE NodeAt(f, n) = "none" -> ERR
                      [] NodeAt(f, n) = "link" -> Walk(f, <<>>, LinkTarget[n] \o t, fuel - 1)
                      [] OTHER -> Walk(f, n, t, fuel)

Full(s, arg) == IF arg.abs THEN arg.comps ELSE s.cwd \o arg.comps
(* A path argument resolved for reading: inside the served root or ERR. *)
Resolve(f, s, arg) ==
  LET p == Walk(f, RootPath, Full(s, arg), 4)
  IN  IF p = ERR \/ ~InRoot(p) THEN ERR ELSE p

(* Where a file or directory to be created lands: parent resolved inside the root, plus a plain name. *)
CreateTarget(f, s, arg) ==
  LET full == Full(s, arg)
      lst == Last(full)
  IN  IF full = <<>> \/ lst = ".." THEN ERR
      ELSE LET p == Walk(f, RootPath, Front(full), 4)
           IN  IF p = ERR \/ ~InRoot(p) \/ NodeAt(f, p) # "dir" THEN ERR ELSE Append(p, lst)

(* Where uploaded data lands: links are followed, but never out of the root. *)
StoreTarget(f, s, arg) ==
  LET t == CreateTarget(f, s, arg)
  IN  IF t = ERR THEN ERR
      ELSE IF NodeAt(f, t) = "link"
           THEN LET r == Walk(f, <<>>, LinkTarget[t], 4)
                IN  IF r = ERR \/ ~InRoot(r) \/ ~IsFile(NodeAt(f, r)) THEN ERR ELSE r
           ELSE IF NodeAt(f, t) = "dir" THEN ERR ELSE t

DropTree(f, p) == [q \in DOMAIN f |-> IF Under(p, q) THEN "none" ELSE f[q]]
Put(f, p, n) == [f EXCEPT ![p] = n]

(* One line of a directory listing: name, directory?, content (files only). *)
EntryOf(f, p) ==
  LET r == IF NodeAt(f, p) = "link" THEN Walk(f, <<>>, LinkTarget[p], 4) ELSE p
  IN  IF r = ERR THEN {} ELSE
      {[name |-> Last(p), dir |-> NodeAt(f, r) = "dir", c |-> IF IsFile(NodeAt(f, r)) THEN NodeAt(f, r) ELSE ""]}

ListOf(f, p) == IF NodeAt(f, p) = "dir" THEN UNION {EntryOf(f, q) : q \in Children(f, p)} ELSE EntryOf(f, p)

(* NLST: a (relative) glob whose last component may be "*"; entries outside the root are hidden. *)
NlstOf(f, s, arg) ==
  LET comps == arg.comps
      base == Walk(f, RootPath, s.cwd \o Front(comps), 4)
      real(p) == Walk(f, <<>>, p, 4)
      ent(p, nm) == LET r == real(p)
                    IN  IF r = ERR \/ ~InRoot(r) THEN {} ELSE {[name |-> nm, dir |-> NodeAt(f, r) = "dir", c |-> ""]}
  IN  IF base = ERR \/ NodeAt(f, base) # "dir" THEN {}
      ELSE IF Last(comps) = "*" THEN UNION {ent(q, Last(q)) : q \in Children(f, base)}
      ELSE ent(Append(base, Last(comps)), Last(comps))

NoData == [k |-> "none"]
FreshSession == [auth |-> "no", user |-> "", cwd |-> <<>>, open |-> FALSE, port |-> "none", live |-> TRUE]

(* Outcome of a command: replies in order, payload on the data connection, whether the server hangs up, *)
(* new session and new tree.                                                                            *)
Out(codes, data, closed, s, f) == [codes |-> codes, data |-> data, closed |-> closed, s |-> s, f |-> f]
Reply(code, s, f) == Out(<<code>>, NoData, FALSE, s, f)

Gated == {"CWD", "LIST", "NLST", "PASV", "EPSV", "EPSVALL", "PORT", "PWD", "RETR", "STOR", "CDUP", "MKD", "RMD", "DELE"}

UserCmd(s, f, name) ==
  IF name = "" THEN Reply(501, s, f)
  ELSE IF Anonymous /\ name = "anonymous" THEN Reply(331, [s EXCEPT !.user = name, !.auth = "wait"], f)
  ELSE LET m == {u \in Users : u.name = name}
       IN  IF m = {} THEN Reply(530, s, f)
           ELSE LET u == CHOOSE u \in m : TRUE
                IN  IF u.pass = "" THEN Reply(230, [s EXCEPT !.user = name, !.auth = "in"], f)
                    ELSE Reply(331, [s EXCEPT !.user = name, !.auth = "wait"], f)

PassOk(name, pass) == (Anonymous /\ name = "anonymous") \/ [name |-> name, pass |-> pass] \in Users

(* Data connection for a transfer: <<ok, session>>; failure of an active connect answers 425. *)
Transfer(s, f, K(_)) ==
  IF s.port = "down" THEN Reply(425, s, f)
  ELSE LET s1 == IF s.port = "up" THEN [s EXCEPT !.open = TRUE] ELSE s
       IN  IF ~s1.open THEN Reply(426, s1, f)
           ELSE K([s1 EXCEPT !.open = FALSE])

List(s, f, arg) ==
  LET K(s1) == LET p == Resolve(f, s, arg)
               IN  IF p = ERR THEN Reply(501, s1, f)
                   ELSE Out(<<125, 226>>, [k |-> "list", v |-> ListOf(f, p)], FALSE, s1, f)
  IN  Transfer(s, f, K)

Nlst(s, f, arg) ==
  LET here == [abs |-> FALSE, comps |-> <<>>]
      K(s1) == IF Resolve(f, s, here) = ERR THEN Reply(550, s1, f)
               ELSE IF arg.abs THEN Reply(501, s1, f)
               ELSE Out(<<125, 226>>, [k |-> "nlst", v |-> NlstOf(f, s, IF arg.comps = <<>> THEN [abs |-> FALSE, comps |-> <<"*">>] ELSE arg)],
                        FALSE, s1, f)
  IN  Transfer(s, f, K)

Retr(s, f, arg) ==
  LET K(s1) == LET p == Resolve(f, s, arg)
               IN  IF p = ERR \/ ~IsFile(NodeAt(f, p)) THEN Reply(451, s1, f)
                   ELSE Out(<<125, 226>>, [k |-> "file", v |-> f[p]], FALSE, s1, f)
  IN  Transfer(s, f, K)

Stor(s, f, arg, c) ==
  LET K(s1) == IF \E i \in DOMAIN arg.comps : arg.comps[i] = ".."
               THEN Out(<<>>, NoData, TRUE, [s1 EXCEPT !.live = FALSE], f)
               ELSE LET t == StoreTarget(f, s, arg)
                    IN  IF t = ERR THEN Out(<<125, 451>>, NoData, FALSE, s1, f)
                        ELSE Out(<<125, 226>>, NoData, FALSE, s1, Put(f, t, c))
  IN  Transfer(s, f, K)

LoggedIn(s, f, cmd) ==
  CASE cmd.op = "CWD" ->
         (LET p == Resolve(f, s, cmd.arg)
          IN  IF p = ERR \/ NodeAt(f, p) # "dir" THEN Reply(550, s, f) ELSE Reply(250, [s EXCEPT !.cwd = Tail(p)], f))
    [] cmd.op = "CDUP" -> Reply(250, [s EXCEPT !.cwd = IF s.cwd = <<>> THEN <<>> ELSE Front(s.cwd)], f)
    [] cmd.op = "PWD" -> Out(<<257>>, [k |-> "pwd", v |-> s.cwd], FALSE, s, f)
    [] cmd.op = "MKD" ->
         (LET t == CreateTarget(f, s, cmd.arg)
          IN  IF t = ERR \/ NodeAt(f, t) # "none" THEN Reply(550, s, f) ELSE Reply(257, s, Put(f, t, "dir")))
    [] cmd.op = "RMD" ->
         (LET p == Resolve(f, s, cmd.arg)
          IN  IF p = ERR \/ p = RootPath \/ NodeAt(f, p) # "dir" THEN Reply(550, s, f) ELSE Reply(250, s, DropTree(f, p)))
    [] cmd.op = "DELE" ->
         (LET p == Resolve(f, s, cmd.arg)
          IN  IF p = ERR \/ ~IsFile(NodeAt(f, p)) THEN Reply(550, s, f) ELSE Reply(250, s, Put(f, p, "none")))
    [] cmd.op = "PASV" -> IF s.open THEN Reply(125, s, f) ELSE Reply(227, [s EXCEPT !.open = TRUE, !.port = "none"], f)
    [] cmd.op = "EPSV" -> IF s.open THEN Reply(125, s, f) ELSE Reply(229, [s EXCEPT !.open = TRUE, !.port = "none"], f)
    [] cmd.op = "EPSVALL" -> Reply(200, [s EXCEPT !.open = FALSE], f)
    [] cmd.op = "PORT" -> Reply(200, [s EXCEPT !.port = cmd.port], f)
    [] cmd.op = "LIST" -> List(s, f, cmd.arg)
    [] cmd.op = "NLST" -> Nlst(s, f, cmd.arg)
    [] cmd.op = "RETR" -> Retr(s, f, cmd.arg)
    [] cmd.op = "STOR" -> Stor(s, f, cmd.arg, cmd.c)

(* The effect of one command received on a live session. *)
Do(s, f, cmd) ==
  CASE cmd.op \in Gated /\ s.auth = "in" -> LoggedIn(s, f, cmd)
    [] cmd.op \in Gated -> Reply(530, s, f)
    [] cmd.op = "USER" -> UserCmd(s, f, cmd.name)
    [] cmd.op = "PASS" ->
         IF s.auth # "wait" THEN Reply(530, s, f)
         ELSE IF PassOk(s.user, cmd.pass) THEN Reply(230, [s EXCEPT !.auth = "in"], f) ELSE Reply(530, s, f)
    [] cmd.op = "AUTH" -> Reply(502, s, f)
    [] cmd.op = "SYST" -> Reply(215, s, f)
    [] cmd.op = "TYPE" -> Reply(200, s, f)
    [] cmd.op = "FEAT" -> Reply(211, s, f)
    [] cmd.op = "NOOP" -> Reply(200, s, f)
    [] cmd.op = "UNKNOWN" -> Reply(500, s, f)
    [] cmd.op = "QUIT" -> Out(<<221>>, NoData, TRUE, [s EXCEPT !.live = FALSE, !.open = FALSE], f)
    [] cmd.op = "BAD" -> Out(<<>>, NoData, TRUE, [s EXCEPT !.live = FALSE], f)

(* Commands whose target would fall outside the finite universe of paths are not explored. *)
InUniverse(s, f, cmd) ==
  IF cmd.op \in {"MKD", "STOR"} /\ s.auth = "in"
  THEN LET t == CreateTarget(f, s, cmd.arg) IN t = ERR \/ t \in DOMAIN f
  ELSE TRUE

(* Does the argument name (or its parent name) something that exists outside the served root? *)
Escapes(s, f, cmd) ==
  IF s.auth = "in" /\ cmd.op \in {"CWD", "MKD", "RMD", "DELE", "RETR", "LIST", "STOR", "NLST"}
  THEN LET full == Full(s, cmd.arg)
           p == Walk(f, RootPath, full, 4)
           q == IF full = <<>> THEN ERR ELSE Walk(f, RootPath, Front(full), 4)
       IN  (p # ERR /\ ~InRoot(p)) \/ (q # ERR /\ ~InRoot(q)) \/ \E i \in DOMAIN full : full[i] = ".." /\ p = ERR
  ELSE FALSE

NoObs == [c |-> "", esc |-> FALSE, cmd |-> [op |-> ""], codes |-> <<>>, data |-> NoData, closed |-> FALSE]

Init ==
  /\ fs = InitFs
  /\ ses = [c \in Clients |-> FreshSession]
  /\ obs = NoObs
  /\ steps = 0

Step(c, cmd) ==
  /\ ses[c].live
  /\ InUniverse(ses[c], fs, cmd)
  /\ MaxSteps = 0 \/ steps < MaxSteps
  /\ LET o == Do(ses[c], fs, cmd)
     IN  /\ ses' = [ses EXCEPT ![c] = o.s]
         /\ fs' = o.f
         /\ obs' = [c |-> c, esc |-> Escapes(ses[c], fs, cmd), cmd |-> cmd, codes |-> o.codes, data |-> o.data, closed |-> o.closed]
  /\ steps' = IF MaxSteps = 0 THEN 0 ELSE steps + 1

Next == \E c \in Clients, cmd \in Commands : Step(c, cmd)
Spec == Init /\ [][Next]_vars

View == <<fs, ses, steps>>

---------------------------------------------------------------------------
(* Properties of the design *)

Mutating == {"MKD", "RMD", "DELE", "STOR"}

(* P01: nothing but login and status commands has an effect before a successful login. *)
AuthGate ==
  [][\A c \in Clients :
       (obs'.c = c /\ ses[c].auth # "in") =>
          /\ fs' = fs
          /\ obs'.data = NoData
          /\ (obs'.cmd.op \in Gated => obs'.codes = <<530>> /\ ses'[c] = ses[c])]_<<fs, ses, obs>>
OnlyRightPassword ==
  [][\A c \in Clients :
       (ses[c].auth # "in" /\ ses'[c].auth = "in") =>
          LET u == ses'[c].user
          IN  \/ Anonymous /\ u = "anonymous" /\ obs'.cmd.op = "PASS"
              \/ [name |-> u, pass |-> ""] \in Users /\ obs'.cmd.op = "USER"
              \/ obs'.cmd.op = "PASS" /\ [name |-> u, pass |-> obs'.cmd.pass] \in Users]_<<fs, ses, obs>>

(* P02: what lies outside the served root never changes, and the root itself stays. *)
Contained == /\ \A p \in DOMAIN fs : ~InRoot(p) => fs[p] = InitFs[p]
             /\ fs[RootPath] = "dir"
(* ... and no payload ever carries an outside file's content. *)
OutsideContents == {InitFs[p] : p \in {q \in DOMAIN InitFs : ~InRoot(q) /\ IsFile(InitFs[q])}}
NoLeak == obs.data.k = "file" => obs.data.v \notin OutsideContents
CwdInside == \A c \in Clients : \A i \in DOMAIN ses[c].cwd : ses[c].cwd[i] # ".."

(* An argument that leaves the root is never honoured. *)
EscapeRefused == obs.esc => \/ obs.closed
                            \/ Last(obs.codes) >= 400
                            \/ obs.cmd.op = "NLST" /\ \A e \in obs.data.v : e.c = ""

(* P03: exactly one final reply per command (or the server hangs up), preliminary replies only before it. *)
Final(code) == code >= 200
OneFinal ==
  obs.c # "" =>
    LET finals == {i \in DOMAIN obs.codes : Final(obs.codes[i])}
    IN  \/ Cardinality(finals) = 1 /\ Len(obs.codes) \in finals
        \/ obs.closed /\ obs.codes = <<>>
        \/ obs.cmd.op \in {"PASV", "EPSV"} /\ obs.codes = <<125>>
(* A refusal has no effect. *)
RefusalInert == [][(Len(obs'.codes) > 0 /\ Last(obs'.codes) >= 400) => fs' = fs]_<<fs, ses, obs>>
DataOnlyOnSuccess == obs.data.k \in {"list", "nlst", "file"} => obs.codes = <<125, 226>>

(* P06: a command of one client never touches another client's session. *)
Isolation == [][\A c \in Clients : obs'.c # c => ses'[c] = ses[c]]_<<fs, ses, obs>>

(* P04: an upload stores exactly the uploaded content, nothing else changes. *)
StoreExact ==
  [][(obs'.cmd.op = "STOR" /\ obs'.codes = <<125, 226>>) =>
       \E p \in DOMAIN fs : /\ fs'[p] = obs'.cmd.c
                            /\ \A q \in DOMAIN fs : q # p => fs'[q] = fs[q]]_<<fs, ses, obs>>

---------------------------------------------------------------------------
(* Emission of the state graph for the conformance replayer: a state is the *)
(* difference of the tree from InitFs plus the sessions.                     *)
FsDelta(f) == {<<p, f[p]>> : p \in {q \in DOMAIN f : f[q] # InitFs[q]}}
SesOf(s) == [c \in Clients |-> <<s[c].auth, s[c].user, s[c].cwd, s[c].open, s[c].port, s[c].live>>]
EmitEdge == PrintT(ToJson(<<FsDelta(fs), SesOf(ses), obs', FsDelta(fs'), SesOf(ses')>>))
EmitInit == obs.c = "" => PrintT(ToJson([init |-> {<<p, fs[p]>> : p \in {q \in DOMAIN fs : fs[q] # "none"}}, links |-> {<<p, LinkTarget[p]>> : p \in DOMAIN LinkTarget}]))
=============================================================================
