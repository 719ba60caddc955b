---------------------------- MODULE MetadataTrace ----------------------------
(* Recorded conversions against Metadata.tla: x.src, x.opt, x.out; x.names: Make, Model *)
EXTENDS Metadata, Json, IOUtils, TLC, Integers
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, verdict
Text(b) == Append(b, 0)
Names(x) == {[d |-> "root", tag |-> 271, type |-> 2, b |-> Text(x.make)], [d |-> "root", tag |-> 272, type |-> 2, b |-> Text(x.model)]}
            \cup (IF x.opt.to = "dng" THEN {[d |-> "root", tag |-> 50708, type |-> 2, b |-> Text(x.make \o <<32>> \o x.model)]} ELSE {})
\* days from 1970-01-01 to a date of the years 1970 to 2037
Leap(y) == y % 4 = 0
Month(m, y) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
RECURSIVE Before(_, _)
Before(m, y) == IF m = 1 THEN 0 ELSE Month(m - 1, y) + Before(m - 1, y)
Days(y, m, d) == ((y - 1970) * 365) + ((y - 1969) \div 4) + Before(m, y) + d - 1
Seconds(t) == (Days(t[1], t[2], t[3]) * 86400) + (t[4] * 3600) + (t[5] * 60) + t[6]
\* x.time: <<>> if the file time was not to be kept, [date |-> <<y, m, d, h, m, s>> or <<>>, hours |-> <<>> or <<h>>, offset |-> <<>> or <<minutes>>, file |-> time of the source]
When(t) == IF t.date = <<>> THEN t.file
           ELSE Seconds(t.date) - (IF t.hours # <<>> THEN t.hours[1] * 3600 ELSE IF t.offset # <<>> THEN t.offset[1] * 60 ELSE 0)
Verdict(x) ==
  LET want == Output(x.src, x.opt) \cup Names(x) got == Range(x.out) IN
  IF ~x.ok THEN "not converted"
  ELSE IF \E e \in want : e \notin got THEN LET e == CHOOSE e \in want : e \notin got IN "not carried over: " \o e.d \o " tag " \o ToString(e.tag)
  ELSE IF \E e \in got : e \notin want THEN LET e == CHOOSE e \in got : e \notin want IN "made up: " \o e.d \o " tag " \o ToString(e.tag)
  ELSE IF ~x.fresh THEN "software or date of the conversion"
  ELSE IF x.time.keep /\ x.time.got # When(x.time) THEN "file time"
  ELSE ""
Init == r \in 1..Len(Recs) /\ verdict = "open"
Next == verdict = "open" /\ verdict' = Verdict(Recs[r]) /\ UNCHANGED r
Spec == Init /\ [][Next]_<<r, verdict>>
Emit == verdict \notin {"open", ""} => PrintT(ToJson([reject |-> r, why |-> verdict]))
=============================================================================
