------------------------------ MODULE DiskFull ------------------------------
(* One job writing its output of Size units through a buffer of Buf units onto  *)
(* a disk with room for Quota units.  Errors surface at a spill, at the final   *)
(* flush, or at a seek (which spills).  Whatever the moment, the job ends with  *)
(* a complete file and success, or with a failure and no file.                  *)
EXTENDS Naturals, TLC, Json
CONSTANTS MaxSize, MaxBuf
VARIABLES size, buf, quota, prod, held, disk, st, file
vars == <<size, buf, quota, prod, held, disk, st, file>>

Init ==
  /\ size \in 1..MaxSize /\ buf \in 1..MaxBuf /\ quota \in 0..(MaxSize + 1)
  /\ prod = 0 /\ held = 0 /\ disk = 0 /\ st = "writing" /\ file = "partial"

\* the producer hands over one unit; a full buffer is spilled first
Produce ==
  /\ st = "writing" /\ prod < size /\ held < buf
  /\ prod' = prod + 1 /\ held' = held + 1
  /\ UNCHANGED <<size, buf, quota, disk, st, file>>
Spill ==
  /\ st \in {"writing", "flushing"} /\ held > 0
  /\ IF disk + held <= quota
     THEN disk' = disk + held /\ held' = 0 /\ st' = st
     ELSE disk' = quota /\ held' = 0 /\ st' = "failed"
  /\ UNCHANGED <<size, buf, quota, prod, file>>
Flush ==
  /\ st = "writing" /\ prod = size
  /\ st' = "flushing"
  /\ UNCHANGED <<size, buf, quota, prod, held, disk, file>>
Succeed ==
  /\ st = "flushing" /\ held = 0
  /\ st' = "ok" /\ file' = "complete"
  /\ UNCHANGED <<size, buf, quota, prod, held, disk>>
CleanUp ==
  /\ st = "failed"
  /\ st' = "error" /\ file' = "absent"
  /\ UNCHANGED <<size, buf, quota, prod, held, disk>>
Next == Produce \/ Spill \/ Flush \/ Succeed \/ CleanUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllOrNothing == /\ st = "ok" => file = "complete" /\ disk = size
                /\ st = "error" => file = "absent"
Verdict == st \in {"ok", "error"} => (st = "ok" <=> size <= quota)
Ends == <>(st \in {"ok", "error"})
Emit == st \in {"ok", "error"} => PrintT(ToJson([size |-> size, quota |-> quota, exit |-> IF st = "ok" THEN 0 ELSE 1, file |-> file]))
=============================================================================
