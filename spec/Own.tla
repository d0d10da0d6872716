-------------------------------- MODULE Own ---------------------------------
(* Who holds which RSA key, and when it is released.                         *)
(*   keys : sequence of [caller, pub]: how many references the caller        *)
(*          holds, and whether it is a public key, of no use for signing;    *)
(*   slots: what holds keys: "m" and "x" are the main and an additional      *)
(*          signature of one options object, "c" a copy of such settings,    *)
(*          "p" a public key object.  Each [there, key, own, past]: key 0    *)
(*          is none, own says that the slot releases it, past are keys it    *)
(*          once owned (their release may wait for its end, no longer).      *)
(* The caller keeps the rules: it hands over only a reference it has, and    *)
(* releases no key that something still borrows.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT MaxKeys

Slots == {"m", "x", "c", "p"}
OfOptions == {"m", "x"}
Absent == [there |-> FALSE, key |-> 0, own |-> FALSE, past |-> {}]
Fresh  == [Absent EXCEPT !.there = TRUE]
OwnInit == [keys |-> <<>>, slots |-> [s \in Slots |-> Absent]]

Holds(st, s, k)  == st.slots[s].there /\ st.slots[s].key = k
Owns(st, s, k)   == Holds(st, s, k) /\ st.slots[s].own
Borrows(st, s, k) == Holds(st, s, k) /\ ~st.slots[s].own
\* the key must be usable; it may still be there; else it has been released
MustLive(st) == {k \in 1..Len(st.keys) : st.keys[k].caller > 0 \/ \E s \in Slots : Owns(st, s, k)}
MayLive(st)  == MustLive(st) \cup UNION {st.slots[s].past : s \in {t \in Slots : st.slots[t].there}}

\* slot s gets key k; what it owned goes to its past, unless it is the same key
Give(st, s, k, own) ==
  LET old == st.slots[s]
      past == old.past \cup (IF old.own /\ old.key # 0 /\ old.key # k THEN {old.key} ELSE {})
  IN [st EXCEPT !.slots[s] = [there |-> TRUE, key |-> k, own |-> own, past |-> past]]
End(st, ss) == [st EXCEPT !.slots = [s \in Slots |-> IF s \in ss THEN Absent ELSE @[s]]]

\* ---- the caller's calls
Can(st, a) ==
  LET there == st.slots[a.s].there IN
  CASE a.f = "make"   -> Len(st.keys) < MaxKeys
    [] a.f = "ref"    -> a.k <= Len(st.keys) /\ st.keys[a.k].caller = 0 /\ a.k \in MustLive(st)
    [] a.f = "free"   -> a.k <= Len(st.keys) /\ st.keys[a.k].caller = 1
    [] a.f = "new"    -> ~there /\ a.s \in {"m", "p"}
    [] a.f = "add"    -> st.slots["m"].there /\ ~st.slots["x"].there
    [] a.f = "set"    -> /\ there /\ a.s # "p" /\ a.k <= Len(st.keys) /\ (a.k # 0 => ~st.keys[a.k].pub)
                         \* what the slot owns already is set again or handed back; anything else the caller must have
                         /\ IF a.k = 0 THEN TRUE ELSE st.keys[a.k].caller = (IF Owns(st, a.s, a.k) THEN 0 ELSE 1)
    [] a.f = "load"   -> there /\ Len(st.keys) < MaxKeys
    [] a.f = "bad"    -> there
    [] a.f = "ed"     -> there /\ a.s # "p"          \* an Ed25519 key beside it
    [] a.f = "whole"  -> there /\ a.s \in {"m", "p"} \* the object copied and assigned, if that can be
    [] a.f = "loop"   -> there /\ a.s = "m"          \* its settings gone through by copies
    [] a.f = "copy"   -> a.s # "p" /\ there /\ ~st.slots["c"].there
    [] a.f = "assign" -> a.s # "p" /\ there /\ a.to \in {"x", "c"} /\ st.slots[a.to].there
    [] a.f = "drop"   -> there /\ a.s # "x"
    [] a.f = "reset"  -> there /\ a.s = "p"
    [] a.f = "again"  -> there /\ a.s = "p"          \* parses on without a reset, then resets
    [] a.f = "sign"   -> st.slots["m"].there
    [] OTHER -> FALSE
Do(st, a) ==
  CASE a.f = "make"   -> [st EXCEPT !.keys = Append(@, [caller |-> 1, pub |-> FALSE])]
    [] a.f = "ref"    -> [st EXCEPT !.keys[a.k].caller = 1]
    [] a.f = "free"   -> [st EXCEPT !.keys[a.k].caller = 0]
    [] a.f = "new"    -> [st EXCEPT !.slots[a.s] = Fresh]
    [] a.f = "add"    -> [st EXCEPT !.slots["x"] = Fresh]
    [] a.f = "set"    -> IF a.k = 0 THEN Give(st, a.s, 0, a.give)
                         ELSE LET had == Owns(st, a.s, a.k)
                                  c == IF a.give THEN 0 ELSE 1      \* handed over; or kept, or handed back
                              IN [Give(st, a.s, a.k, a.give) EXCEPT !.keys[a.k].caller = c]
    [] a.f = "load"   -> Give([st EXCEPT !.keys = Append(@, [caller |-> 0, pub |-> a.s = "p"])], a.s, Len(st.keys) + 1, TRUE)
    [] a.f = "bad"    -> IF a.s = "p" THEN Give(st, "p", 0, FALSE) ELSE st
    [] a.f = "copy"   -> [st EXCEPT !.slots["c"] = [st.slots[a.s] EXCEPT !.past = {}]]
    [] a.f = "assign" -> Give(st, a.to, st.slots[a.s].key, st.slots[a.s].own)
    [] a.f = "drop"   -> End(st, IF a.s = "m" THEN OfOptions ELSE {a.s})
    [] a.f \in {"reset", "again"} -> Give(st, a.s, 0, FALSE)
    [] a.f \in {"sign", "ed", "whole", "loop"} -> st
\* whatever is borrowed must stay alive: the caller sees to that
Minded(st) == \A s \in Slots : st.slots[s].there /\ st.slots[s].key # 0 => st.slots[s].key \in MustLive(st)
\* a failed load leaves the slot as it was; a public key object is reset before each record
Result(st, a) == IF a.f = "bad" THEN "perm"
                 ELSE IF a.f = "sign" THEN (IF \E s \in OfOptions : st.slots[s].there /\ st.slots[s].key = 0 THEN "perm" ELSE "ok")
                 ELSE "ok"
=============================================================================
