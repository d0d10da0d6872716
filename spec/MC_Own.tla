------------------------------- MODULE MC_Own -------------------------------
(* Every call in every reachable state of ownership (the history is not part *)
(* of a state: VIEW).  How often a key was released is told from the calls   *)
(* alone: one reference made, handed over, kept, shared, given up.           *)
EXTENDS Own, DkimJ, SequencesExt
CONSTANTS MaxSteps, EmitOn
VARIABLES st, hist, exp, freed
vars == <<st, hist, exp, freed>>
View == <<st, freed>>
SP == {"m", "x", "c"}
Menu == {[f |-> "make", s |-> "m"]}
     \cup {[f |-> f, s |-> "m", k |-> k] : f \in {"ref", "free"}, k \in 1..MaxKeys}
     \cup {[f |-> "new", s |-> s] : s \in {"m", "p"}} \cup {[f |-> "add", s |-> "m"]}
     \cup {[f |-> "set", s |-> s, k |-> k, give |-> g] : s \in SP, k \in 0..MaxKeys, g \in BOOLEAN}
     \cup {[f |-> f, s |-> s] : f \in {"load", "bad"}, s \in Slots}
     \cup {[f |-> "copy", s |-> s] : s \in OfOptions}
     \cup {[f |-> "assign", s |-> s, to |-> t] : s \in SP, t \in {"x", "c"}}
     \cup {[f |-> "drop", s |-> s] : s \in {"m", "c", "p"}}
     \cup {[f |-> f, s |-> "p"] : f \in {"reset", "again", "whole"}} \cup {[f |-> f, s |-> "m"] : f \in {"sign", "loop", "whole"}}
     \cup {[f |-> "ed", s |-> s] : s \in SP}
MenuC == Menu
Init == st = OwnInit /\ hist = <<>> /\ exp = <<>> /\ freed = [k \in 1..MaxKeys |-> FALSE]
Next == /\ Len(hist) < MaxSteps
        /\ \E a \in MenuC : Can(st, a) /\
             LET n == Do(st, a) IN
             /\ Minded(n)
             /\ st' = n
             /\ hist' = Append(hist, a)
             /\ exp' = Append(exp, [r |-> Result(st, a), must |-> MustLive(n), may |-> MayLive(n), held |-> [s \in Slots |-> n.slots[s].key]])
             /\ freed' = [k \in 1..MaxKeys |-> freed[k] \/ (k <= Len(n.keys) /\ k \notin MayLive(n))]
Spec == Init /\ [][Next]_vars

\* what is released stays released, and nothing uses it
Once    == \A k \in 1..Len(st.keys) : freed[k] => k \notin MustLive(st) /\ \A s \in Slots : ~Holds(st, s, k)
\* when nothing holds or once held a key and the caller has none, all of it is gone
NoRest  == (\A s \in Slots : ~st.slots[s].there) /\ (\A k \in 1..Len(st.keys) : st.keys[k].caller = 0) => MayLive(st) = {}
Usable  == Minded(st)
\* a key is released only by a call that ends its last holder
Counted == \A k \in 1..Len(st.keys) : k \in MustLive(st) <=> st.keys[k].caller + Cardinality({s \in Slots : Owns(st, s, k)}) > 0

Out == [ev |-> hist' \o <<>>, x |-> [i \in 1..Len(exp') |-> [r |-> exp'[i].r, must |-> SetToSortSeq(exp'[i].must, LAMBDA a, b : a < b) \o <<>>, may |-> SetToSortSeq(exp'[i].may, LAMBDA a, b : a < b) \o <<>>, held |-> exp'[i].held]]]
Each == IF EmitOn THEN Emit(Out) ELSE TRUE
\* random long histories
AtEnd == Len(hist') = MaxSteps /\ EmitOn => Emit(Out)
=============================================================================
