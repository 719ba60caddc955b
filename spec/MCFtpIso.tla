------------------------------ MODULE MCFtpIso ------------------------------
(* Two sessions on the same tree, commands interleaved in every order.       *)
EXTENDS Ftp
CONSTANT Wide
A(abs, comps) == [abs |-> abs, comps |-> comps]
mcUsers == {[name |-> "anonymous", pass |-> "pw"]}
mcContents == {"c1"}
mcPaths == {<<>>, <<"R">>, <<"R", "d">>, <<"R", "f">>} \cup (IF Wide THEN {<<"R", "d", "f">>} ELSE {})
mcInit == [p \in mcPaths |-> CASE p = <<"R", "f">> -> "c0" [] p = <<"R", "d", "f">> -> "none" [] OTHER -> "dir"]
mcLinks == [p \in {} |-> <<>>]
mcCommands ==
     {[op |-> o, arg |-> A(FALSE, <<"d">>)] : o \in {"CWD", "RMD"}}
  \cup {[op |-> o, arg |-> A(FALSE, <<"f">>)] : o \in {"RETR", "DELE"}}
  \cup {[op |-> "MKD", arg |-> A(TRUE, <<"d">>)], [op |-> "LIST", arg |-> A(FALSE, <<>>)], [op |-> "NLST", arg |-> A(FALSE, <<>>)]}
  \cup {[op |-> "STOR", arg |-> A(FALSE, <<"f">>), c |-> "c1"]}
  \cup {[op |-> o] : o \in {"PASV", "CDUP", "PWD", "QUIT"}}
  \cup {[op |-> "USER", name |-> "anonymous"], [op |-> "PASS", pass |-> "any"]}
  \cup (IF Wide THEN {[op |-> "PORT", port |-> "up"], [op |-> "EPSVALL"]} ELSE {})
=============================================================================
