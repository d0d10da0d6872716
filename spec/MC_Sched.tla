----------------------------- MODULE MC_Sched -------------------------------
(* A cooperative scheduler.  Every activity is a row of Segs segments, the    *)
(* stretches of code between two points where control can leave it (a call    *)
(* begins, the stream is read, the resolver is asked).  All schedules with at *)
(* most MaxSwitch preemptions (an activity left before its end) are built;    *)
(* each is one way to run the activities concurrently.                        *)
EXTENDS Text
CONSTANTS Acts, Segs, MaxSwitch, EmitOn
VARIABLES pc, word, sw
vars == <<pc, word, sw>>
A == 1..Acts
Init == pc = [i \in A |-> 0] /\ word = <<>> /\ sw = 0
Recent == word[Len(word)]
Preempts(i) == word # <<>> /\ Recent # i /\ pc[Recent] < Segs
Turn(i) == /\ pc[i] < Segs
           /\ Preempts(i) => sw < MaxSwitch
           /\ sw' = sw + (IF Preempts(i) THEN 1 ELSE 0)
           /\ pc' = [pc EXCEPT ![i] = @ + 1]
           /\ word' = Append(word, i)
Next == \E i \in A : Turn(i)
Spec == Init /\ [][Next]_vars
Done == \A i \in A : pc[i] = Segs
\* a schedule reorders nothing within an activity and loses nothing
Keeps == \A i \in A : Cardinality({k \in 1..Len(word) : word[k] = i}) = pc[i]
Fair  == Done => Len(word) = Acts * Segs
\* the runs of the schedule: who, how long
RECURSIVE Runs(_, _)
Runs(w, acc) == IF w = <<>> THEN acc
                ELSE IF acc # <<>> /\ acc[Len(acc)][1] = w[1] THEN Runs(Tail(w), [acc EXCEPT ![Len(acc)] = <<@[1], @[2] + 1>>])
                ELSE Runs(Tail(w), Append(acc, <<w[1], 1>>))
FewRuns == Len(Runs(word, <<>>)) <= sw + Acts
Generate == (EmitOn /\ Done) => Emit([sched |-> word, sw |-> sw])
=============================================================================
