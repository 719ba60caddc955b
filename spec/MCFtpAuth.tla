----------------------------- MODULE MCFtpAuth -----------------------------
(* Login state machine against every command, for several user tables.      *)
EXTENDS Ftp
CONSTANT Table  \* "users", "mixed" or "cli"
A(abs, comps) == [abs |-> abs, comps |-> comps]
mcUsers == CASE Table = "users" -> {[name |-> "alice", pass |-> "pw"], [name |-> "bob", pass |-> ""]}
             [] Table = "mixed" -> {[name |-> "alice", pass |-> "pw"], [name |-> "carol", pass |-> "pw2"]}
             [] Table = "cli" -> {[name |-> "anonymous", pass |-> "anonymous@example.com"]}
mcContents == {"c1"}
mcPaths == {<<>>, <<"R">>, <<"R", "d">>, <<"R", "f">>, <<"R", "n">>}
mcInit == [p \in mcPaths |-> CASE p = <<"R", "f">> -> "c0" [] p = <<"R", "n">> -> "none" [] OTHER -> "dir"]
mcLinks == [p \in {} |-> <<>>]
Names == {"alice", "anonymous", "mallory", "", "Alice"} \cup (IF Table = "users" THEN {"bob"} ELSE IF Table = "mixed" THEN {"carol"} ELSE {})
Passes == {"pw", "wrong", "", "PW"} \cup (IF Table = "mixed" THEN {"pw2"} ELSE {})
mcCommands ==
     {[op |-> "USER", name |-> n] : n \in Names} \cup {[op |-> "PASS", pass |-> p] : p \in Passes}
  \cup {[op |-> o, arg |-> A(FALSE, <<"d">>)] : o \in {"CWD", "RMD", "LIST", "NLST"}}
  \cup {[op |-> "MKD", arg |-> A(TRUE, <<"n">>)], [op |-> "DELE", arg |-> A(TRUE, <<"f">>)], [op |-> "RETR", arg |-> A(TRUE, <<"f">>)]}
  \cup {[op |-> "STOR", arg |-> A(TRUE, <<"n">>), c |-> "c1"]}
  \cup {[op |-> o] : o \in {"CDUP", "PWD", "PASV", "EPSV", "EPSVALL", "AUTH", "SYST", "TYPE", "FEAT", "NOOP", "QUIT"}}
  \cup {[op |-> "PORT", port |-> "down"]}
  \cup {[op |-> "UNKNOWN", line |-> "XYZZY"], [op |-> "UNKNOWN", line |-> "LOGIN alice pw"]}
  \cup {[op |-> "BAD", line |-> l] : l \in {"CWD", "RETR", "STOR", "USER", "PASS", "MKD", "TYPE X", "PORT 1,2,3"}}
=============================================================================
