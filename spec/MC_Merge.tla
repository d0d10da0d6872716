----------------------------- MODULE MC_Merge -------------------------------
(* Activities recorded alone on the real code, merged: all of them share one  *)
(* Api state, and every interleaving of their calls is explored.  A call must *)
(* be acceptable with the outcome it had alone wherever it falls, and the     *)
(* state reached must not depend on the way (one state per tuple of positions *)
(* — counted by the caller).                                                  *)
EXTENDS Api, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.DKIM_TRACE)
VARIABLES t, pc, st, good
vars == <<t, pc, st, good>>
RECURSIVE Run(_, _)
Run(s, calls) == IF calls = <<>> THEN s ELSE Run(Step(s, calls[1]).st, Tail(calls))
Init == /\ t \in 1..Len(Log)
        /\ pc = [i \in 1..Len(Log[t].progs) |-> 1]
        /\ st = Run(ApiInit, Log[t].pre)
        /\ good = TRUE
Move(i) == /\ pc[i] <= Len(Log[t].progs[i])
           /\ \E x \in {Step(st, Log[t].progs[i][pc[i]])} :
                /\ st' = x.st
                /\ good' = (good /\ x.ok)
                /\ (IF x.ok THEN TRUE ELSE Emit([t |-> t, i |-> i, k |-> pc[i], pc |-> pc, exp |-> x.exp]))
           /\ pc' = [pc EXCEPT ![i] = @ + 1]
           /\ t' = t
Next == \E i \in 1..Len(pc) : Move(i)
Spec == Init /\ [][Next]_vars
=============================================================================
