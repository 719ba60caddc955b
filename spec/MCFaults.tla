------------------------------ MODULE MCFaults ------------------------------
(* A DNG file with damaged entries, and what may become of it.               *)
(*                                                                           *)
(* The reader works in stages: it finds the file's directories, selects the  *)
(* raw image, locates its blocks, decodes the samples, interprets levels and *)
(* colours, collects descriptive data.  A damaged entry can stop the stage   *)
(* that needs it or change what this stage delivers - and nothing else.      *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Layout, One, Two

\* <<directory, tag>>
Structure == {<<"root", 330>>, <<"root", 50706>>}
Locate == {<<"raw", 256>>, <<"raw", 257>>} \cup
          (IF Layout = "strips" THEN {<<"raw", 273>>, <<"raw", 279>>}
           ELSE {<<"raw", 322>>, <<"raw", 323>>, <<"raw", 324>>, <<"raw", 325>>})
Decode == {<<"raw", 254>>, <<"raw", 258>>, <<"raw", 259>>, <<"raw", 262>>, <<"raw", 277>>, <<"raw", 284>>} \cup
          (IF Layout = "strips" THEN {<<"raw", 278>>} ELSE {}) \cup {<<"root", 254>>}
Levels == {<<"raw", 33421>>, <<"raw", 33422>>, <<"raw", 50710>>, <<"raw", 50711>>, <<"raw", 50713>>, <<"raw", 50714>>,
           <<"raw", 50717>>, <<"raw", 50719>>, <<"raw", 50720>>, <<"raw", 50829>>,
           <<"root", 50721>>, <<"root", 50728>>, <<"root", 50778>>, <<"root", 274>>,
           <<"root", 50707>>, <<"root", 50708>>, <<"root", 271>>, <<"root", 272>>}
Descriptive == {<<"root", t>> : t \in {306, 700, 33432, 34665, 34853}} \cup
               {<<"exif", t>> : t \in {33434, 34855, 36867, 37500, 42036}} \cup
               {<<"gps", t>> : t \in {0, 1, 2}}
\* the thumbnail in the root directory
Thumb == {<<"root", t>> : t \in {256, 257, 258, 259, 262, 273, 277, 278, 279, 284}}

All == Structure \cup Locate \cup Decode \cup Levels \cup Descriptive \cup Thumb

\* ways of damage.  lost: nothing of the entry can be used
Lost == {"absent", "counthuge"}
Changed == {"type0", "type1", "type2", "type3", "type4", "type5", "type7", "type10", "type11", "type12", "type13", "type14",
            "count0", "count1", "countmore", "beyond", "atend", "zero", "ones", "flip"}
Kinds == Lost \cup Changed
Damage == [at : All, how : Kinds]

VARIABLES faults, stage, samples, result
vars == <<faults, stage, samples, result>>

Stages == <<"structure", "select", "locate", "decode", "levels", "describe", "done">>
Needs(s) == CASE s = "structure" -> Structure [] s = "select" -> {<<"raw", 254>>, <<"root", 254>>}
              [] s = "locate" -> Locate [] s = "decode" -> Decode [] s = "levels" -> Levels
              [] OTHER -> Descriptive \cup Thumb

Hits(s) == {f \in faults : f.at \in Needs(s)}

Singles == {{f} : f \in Damage}
\* pairs: of different entries
Pairs == {{f, g} : f \in {d \in Damage : d.how \in One}, g \in {d \in Damage : d.how \in Two}}
Init ==
    /\ faults \in (Singles \cup (IF Two = {} THEN {} ELSE {p \in Pairs : Cardinality({f.at : f \in p}) = 2}))
    /\ stage = 1 /\ samples = "own" /\ result = "open"

\* a stage with damage stops, or goes on with what it has
Stop == /\ result = "open" /\ stage <= 5
        /\ Hits(Stages[stage]) # {}
        /\ result' = "error"
        /\ UNCHANGED <<faults, stage, samples>>
Go == /\ result = "open" /\ stage < 7
      /\ ~(Stages[stage] \in {"structure", "locate"} /\ \E f \in Hits(Stages[stage]) : f.how \in Lost)
      /\ samples' = IF Hits(Stages[stage]) # {} /\ stage <= 4 THEN "other" ELSE samples
      /\ stage' = stage + 1
      /\ UNCHANGED <<faults, result>>
Finish == /\ result = "open" /\ stage = 7
          /\ result' = IF samples = "own" THEN "same" ELSE "image"
          /\ UNCHANGED <<faults, stage, samples>>
Next == Stop \/ Go \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what may be observed
Places == {f.at : f \in faults}
Allowed ==
    IF \E f \in faults : f.at \in Structure \cup Locate /\ f.how \in Lost THEN {"error"}
    ELSE IF Places \cap (Structure \cup Locate \cup Decode) # {} THEN {"error", "image", "same"}
    ELSE IF Places \cap Levels # {} THEN {"error", "same"}
    ELSE {"same"}

Judged == result # "open" => result \in Allowed
Ends == <>(result # "open")
\* the set of results that can happen is what is announced
EmitOnce == (stage = 1 /\ result = "open") => PrintT(ToJson([faults |-> faults, allowed |-> Allowed]))
=============================================================================
