------------------------------ MODULE TraceApi ------------------------------
(* Recorded sessions against Api: trace t is walked call by call; a call     *)
(* whose observation the specification does not allow is emitted.            *)
EXTENDS Api, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.DKIM_TRACE)
VARIABLES t, k, st, good
Here == <<t, k>>
vars == <<t, k, st, good>>
Init == t \in 1..Len(Log) /\ k = 1 /\ st = ApiInit /\ good = TRUE
Next == /\ k <= Len(Log[t].ev)
        /\ \E x \in {Step(st, Log[t].ev[k])} :
             /\ st' = x.st
             /\ good' = (good /\ x.ok)
             /\ (IF x.ok THEN TRUE ELSE Emit([t |-> t, k |-> k, exp |-> x.exp]))
             /\ (IF "claim" \in DOMAIN Log[t].ev[k] /\ x.exp.r \notin SetOf(Log[t].ev[k].claim)
                 THEN Emit([t |-> t, k |-> k, claim |-> x.exp]) ELSE TRUE)
        /\ k' = k + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
