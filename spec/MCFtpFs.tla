------------------------------ MODULE MCFtpFs ------------------------------
(* One logged-in client (plus its login), full file-system command set.     *)
EXTENDS Ftp
CONSTANT Small   \* BOOLEAN: the reduced universe of the quick tier
A(abs, comps) == [abs |-> abs, comps |-> comps]
mcUsers == {[name |-> "anonymous", pass |-> "pw"]}
mcContents == {"c1"}
smallPaths == {<<>>, <<"R">>, <<"Rx">>, <<"secret">>, <<"Rx", "s2">>, <<"R", "d">>, <<"R", "f">>, <<"R", "d", "g">>,
            <<"R", "lo">>, <<"R", "lf">>, <<"R", "li">>, <<"R", "ld">>, <<"Rx", "g">>, <<"Rx", "n">>}
mcPaths == IF Small THEN smallPaths ELSE {<<>>, <<"R">>, <<"Rx">>, <<"secret">>, <<"Rx", "s2">>, <<"R", "d">>, <<"R", "f">>, <<"R", "d", "g">>, <<"R", "d", "e">>, <<"R", "e">>,
            <<"R", "lo">>, <<"R", "lf">>, <<"R", "li">>, <<"R", "ld">>, <<"Rx", "g">>, <<"Rx", "n">>, <<"R", "e", "g">>}
mcInit == [p \in mcPaths |->
             CASE p \in {<<>>, <<"R">>, <<"Rx">>, <<"R", "d">>} -> "dir"
               [] p = <<"secret">> -> "x1"
               [] p = <<"Rx", "s2">> -> "x2"
               [] p = <<"R", "f">> -> "c0"
               [] p = <<"R", "d", "g">> -> "c0"
               [] p \in {<<"R", "lo">>, <<"R", "lf">>, <<"R", "li">>, <<"R", "ld">>} -> "link"
               [] OTHER -> "none"]
(* lo -> sibling directory outside, lf -> file outside, li -> directory inside, ld -> dangling, outside *)
mcLinks == (<<"R", "lo">> :> <<"Rx">>) @@ (<<"R", "lf">> :> <<"secret">>) @@ (<<"R", "li">> :> <<"R", "d">>) @@ (<<"R", "ld">> :> <<"Rx", "n">>)
smallRel == {<<"d">>, <<"f">>, <<"g">>, <<"..">>, <<"lo">>, <<"lf">>, <<"ld">>, <<"d", "g">>, <<"lo", "g">>, <<"li", "g">>, <<"..", "Rx", "g">>, <<"..", "R", "d">>,
        <<"lo", "s2">>, <<"..", "secret">>, <<"d", "..", "..", "Rx">>, <<"li", "..", "f">>}
Rel == IF Small THEN smallRel ELSE smallRel \cup {<<"d">>, <<"f">>, <<"g">>, <<"e">>, <<"..">>, <<"lo">>, <<"lf">>, <<"li">>, <<"ld">>, <<"d", "g">>, <<"lo", "g">>, <<"lo", "s2">>, <<"li", "g">>, <<"..", "secret">>,
        <<"..", "Rx">>, <<"..", "Rx", "g">>, <<"..", "R", "d">>, <<"d", "..", "f">>, <<"d", "..", "..", "Rx", "g">>}
mcArgs == {A(FALSE, r) : r \in Rel} \cup {A(TRUE, r) : r \in {<<>>, <<"d">>, <<"d", "g">>, <<"lo", "s2">>, <<"..", "Rx", "g">>, <<"..">>, <<"f">>}}
mcCommands ==
     {[op |-> o, arg |-> a] : o \in {"CWD", "MKD", "RMD", "DELE", "RETR", "LIST"}, a \in mcArgs}
  \cup {[op |-> "STOR", arg |-> a, c |-> c] : a \in mcArgs, c \in mcContents}
  \cup {[op |-> "NLST", arg |-> a] : a \in {A(FALSE, <<>>), A(FALSE, <<"*">>), A(FALSE, <<"d">>), A(FALSE, <<"d", "*">>), A(FALSE, <<"..">>), A(FALSE, <<"..", "*">>), A(FALSE, <<"lo">>), A(FALSE, <<"lo", "*">>), A(TRUE, <<"d">>), A(FALSE, <<"nix">>)}}
  \cup {[op |-> "LIST", arg |-> A(FALSE, <<>>)], [op |-> "PASV"], [op |-> "CDUP"], [op |-> "PWD"]}
mcInit0 == /\ Init
mcInitIn == /\ fs = InitFs /\ ses = [c \in Clients |-> [FreshSession EXCEPT !.auth = "in", !.user = "anonymous"]] /\ obs = NoObs /\ steps = 0
mcSpecIn == mcInitIn /\ [][Next]_vars
=============================================================================
