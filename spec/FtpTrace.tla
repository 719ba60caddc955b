------------------------------ MODULE FtpTrace ------------------------------
(* Histories recorded from real sessions, each checked to be a behaviour of  *)
(* Ftp for that client alone on its private directory.                       *)
EXTENDS Ftp, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
Names == {"a", "b", "k"}
trPaths == {<<>>, <<"R">>, <<"R", "w">>} \cup {<<"R", "w", x>> : x \in Names} \cup {<<"R", "w", x, y>> : x, y \in Names} \cup {<<"R", "w", x, y, z>> : x, y, z \in Names}
trInit == [p \in trPaths |-> IF Len(p) <= 2 THEN "dir" ELSE "none"]
trLinks == [p \in {} |-> <<>>]
trUsers == {[name |-> "anonymous", pass |-> "pw"]}
VARIABLES tid, i
tvars == <<fs, ses, obs, steps, tid, i>>
TInit == /\ tid \in 1..Len(Traces) /\ i = 0
         /\ fs = InitFs /\ obs = NoObs /\ steps = 0
         /\ ses = [c \in Clients |-> [FreshSession EXCEPT !.auth = "in", !.user = "anonymous", !.cwd = <<"w">>]]
DataOk(d, r) ==
  CASE d.k = "none" -> r.data.k = "none"
    [] d.k \in {"list", "nlst"} -> r.data.k = d.k /\ ToSet(r.data.v) = (IF d.k = "list" THEN d.v ELSE {[name |-> e.name, dir |-> e.dir, c |-> ""] : e \in d.v})
    [] d.k = "file" -> r.data.k = "file" /\ r.data.v = d.v
    [] d.k = "pwd" -> r.data.k = "pwd" /\ r.data.v = d.v
TNext ==
  /\ i < Len(Traces[tid].ev)
  /\ LET r == Traces[tid].ev[i + 1]
         c == CHOOSE c \in Clients : TRUE
         o == Do(ses[c], fs, r.cmd)
     IN  IF r.codes = o.codes /\ DataOk(o.data, r)
         THEN /\ fs' = o.f /\ ses' = [ses EXCEPT ![c] = o.s] /\ i' = i + 1
         ELSE /\ PrintT(ToJson([reject |-> tid, at |-> i + 1, expected |-> o.codes, data |-> o.data]))
              /\ UNCHANGED <<fs, ses>> /\ i' = Len(Traces[tid].ev)
  /\ UNCHANGED <<obs, steps, tid>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
