------------------------------ MODULE Outcome -------------------------------
(* What any call may end in, whatever it was given: a result, or one of the  *)
(* two declared errors.  Recorded outcomes (call, kind, class) are read one  *)
(* by one; those that are none of these are emitted.                         *)
EXTENDS Text, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.DKIM_TRACE)
Result(o)    == o.r = "ok" /\ o.ar = ""
Permanent(o) == o.r = "perm" /\ o.ar \in {"permerror", "fail"}
Temporary(o) == o.r = "temp" /\ o.ar = "temperror"
NotMade(o)   == o.r = "noobj"         \* the harness had no object to make the call on
Exited(o)    == o.r = "exit" /\ o.code \in 0..97
\* calls made again and again on objects that are then ended leave nothing behind
Tidy(o) == "bytes" \in DOMAIN o => o.bytes = "0" /\ o.files = 0
Declared(o) == Tidy(o) /\ (Result(o) \/ Permanent(o) \/ Temporary(o) \/ NotMade(o) \/ Exited(o))
VARIABLE k
Init == k = 1
Next == k <= Len(Log) /\ k' = k + 1 /\ (IF Declared(Log[k]) THEN TRUE ELSE Emit([k |-> k]))
Spec == Init /\ [][Next]_k
=============================================================================
