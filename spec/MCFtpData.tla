----------------------------- MODULE MCFtpData -----------------------------
(* Data-connection state machine: passive, extended passive, active (peer   *)
(* listening or refusing), against transfers that succeed and that fail.    *)
EXTENDS Ftp
A(abs, comps) == [abs |-> abs, comps |-> comps]
mcUsers == {[name |-> "anonymous", pass |-> "pw"]}
mcContents == {"c1", "c2", "c3"}
mcPaths == {<<>>, <<"R">>, <<"R", "d">>, <<"R", "f">>, <<"R", "n">>}
mcInit == [p \in mcPaths |-> CASE p = <<"R", "f">> -> "c0" [] p = <<"R", "n">> -> "none" [] OTHER -> "dir"]
mcLinks == [p \in {} |-> <<>>]
Targets == {A(FALSE, <<"d">>), A(TRUE, <<"f">>), A(FALSE, <<"n">>), A(TRUE, <<>>), A(FALSE, <<"zz", "q">>)}
mcCommands ==
     {[op |-> o, arg |-> a] : o \in {"LIST", "RETR"}, a \in Targets}
  \cup {[op |-> "NLST", arg |-> a] : a \in {A(FALSE, <<>>), A(FALSE, <<"n">>), A(TRUE, <<"d">>), A(FALSE, <<"d", "*">>)}}
  \cup {[op |-> "STOR", arg |-> a, c |-> c] : a \in {A(FALSE, <<"n">>), A(TRUE, <<"f">>), A(FALSE, <<"d">>), A(FALSE, <<"zz", "q">>), A(FALSE, <<"..", "q">>)}, c \in mcContents}
  \cup {[op |-> "PORT", port |-> p] : p \in {"up", "down"}}
  \cup {[op |-> o] : o \in {"PASV", "EPSV", "EPSVALL", "NOOP", "PWD", "CDUP", "FEAT", "TYPE", "AUTH", "SYST", "QUIT"}}
  \cup {[op |-> "CWD", arg |-> A(FALSE, <<"d">>)], [op |-> "CWD", arg |-> A(FALSE, <<"zz">>)], [op |-> "RMD", arg |-> A(TRUE, <<"d">>)], [op |-> "DELE", arg |-> A(TRUE, <<"f">>)], [op |-> "MKD", arg |-> A(TRUE, <<"d">>)]}
  \cup {[op |-> "UNKNOWN", line |-> "XYZZY"]}
  \cup {[op |-> "BAD", line |-> l] : l \in {"CWD", "RETR", "TYPE X", "PORT 127,0,0,1,0,80"}}
mcInitIn == /\ fs = InitFs /\ ses = [c \in Clients |-> [FreshSession EXCEPT !.auth = "in", !.user = "anonymous"]] /\ obs = NoObs /\ steps = 0
mcSpecIn == mcInitIn /\ [][Next]_vars
=============================================================================
