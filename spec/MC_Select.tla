----------------------------- MODULE MC_Select ------------------------------
(* Which instances of which fields are signed.  A message grows from its     *)
(* last field upwards; alongside, two ledgers are kept by rules that know    *)
(* nothing of counting from the bottom: `told`, what h= is to name, and      *)
(* `slots`, which field each name of an h= list has been given.              *)
(*  fields: labels, top first;  side: "sign" (with conf) or "verify" (hl)    *)
EXTENDS Ideal, Options, Json
CONSTANTS MaxFields, MaxH, Side, EmitOn
VARIABLES fields, conf, hl, told, slots
vars == <<fields, conf, hl, told, slots>>

Label == [F |-> "From", f |-> "FROM", A |-> "A-a", a |-> "a-A", B |-> "B", D |-> "Dkim-Signature", U |-> "X;Y", E |-> ""]
SignLabels == {"F", "A", "a", "B", "D", "U", "E"}
VerLabels == {"F", "f", "A", "a", "D"}
Text(l, n) == (IF l = "E" THEN B("no name") ELSE B(Label[l]) \o <<58>> \o B(" no. ")) \o Decimal(n)     \* n: its number from the bottom, so that no two are alike
Name(l) == Lower(B(Label[l]))
Confs == [list : {<<>>, <<"from">>, <<"From", "A-A">>, <<"a-a">>, <<"b", "b", "A-a">>, <<"nope">>, <<"dkim-signature", "FROM">>, <<"x;y", "from">>},
          over : {<<>>, <<"from">>, <<"a-a">>, <<"A-A", "b", "a-a">>, <<"Nope">>, <<"DKIM-Signature">>}]
HNames == {"from", "a-a", "A-A", "dkim-signature"}
HLists == {l \in UNION {[1..k -> HNames] : k \in 1..MaxH} : \E k \in DOMAIN l : l[k] = "from"}

Init == /\ fields = <<>> /\ told = <<>> /\ slots = <<>>
        /\ IF Side = "sign" THEN conf \in Confs /\ hl = <<>> ELSE hl \in HLists /\ conf = <<>>
LowB(x) == Lower(B(x))
Listed(l, name) == \E k \in 1..Len(l) : LowB(l[k]) = name
\* a field is put on top
Signs(l) == l # "E" /\ l # "U" /\ (conf.list = <<>> \/ Listed(conf.list, Name(l)) \/ Listed(conf.over, Name(l)))
Free(l) == {k \in 1..Len(hl) : LowB(hl[k]) = Name(l) /\ k \notin {slots[j].k : j \in 1..Len(slots)}}
Add(l) == /\ fields' = <<l>> \o fields
          /\ told' = IF Side = "sign" /\ Signs(l) THEN Append(told, Name(l)) ELSE told
          /\ slots' = IF Side = "verify" /\ Free(l) # {} THEN Append(slots, [k |-> Min(Free(l)), n |-> Len(fields) + 1]) ELSE slots
          /\ UNCHANGED <<conf, hl>>
Next == Len(fields) < MaxFields /\ \E l \in (IF Side = "sign" THEN SignLabels ELSE VerLabels) : Add(l)
Spec == Init /\ [][Next]_vars

Texts == [i \in 1..Len(fields) |-> Text(fields[i], Len(fields) + 1 - i)] \o <<>>
Msg(ts) == Flat([i \in 1..Len(ts) |-> ts[i] \o CRLF]) \o CRLF \o B("body") \o CRLF
Hdrs(ts) == ParseMail(Msg(ts)).hdrs
Opts == [NewOptions EXCEPT !.headers = [k \in 1..Len(conf.list) |-> B(conf.list[k])] \o <<>>, !.oversign = [k \in 1..Len(conf.over) |-> B(conf.over[k])] \o <<>>]
H == told \o [k \in 1..Len(conf.over) |-> LowB(conf.over[k])]
\* what is stated in h=
Stated == Side = "sign" => HList(Hdrs(Texts), Opts) = H
\* and the verifier takes for it the very fields that were signed
Agreed == Side = "sign" => LET h == Hdrs(Texts) IN Selected(h, 0, HList(h, Opts)) = SignSelected(h, ToSign(Opts))
\* each name its own instance
SlotOf(k) == LET c == {j \in 1..Len(slots) : slots[j].k = k} IN IF c = {} THEN 0 ELSE slots[CHOOSE j \in c : TRUE].n
HlB == [k \in 1..Len(hl) |-> B(hl[k])] \o <<>>
Given == SelectSeq([k \in 1..Len(hl) |-> SlotOf(k)], LAMBDA n : n # 0)
Own == IF Listed(hl, LowB("dkim-signature")) THEN {1, Len(fields) + 1, Min({2, Len(fields) + 1})} ELSE {1}
InsertField(ts, p, t) == SubSeq(ts, 1, p - 1) \o <<t>> \o SubSeq(ts, p, Len(ts))
Numbers(ts, p, sel) == [k \in 1..Len(sel) |-> Len(ts) - sel[k] + 1 - (IF sel[k] < p THEN 1 ELSE 0)] \o <<>>
Taken == Side = "verify" => \A p \in Own :
  LET ts == InsertField(Texts, p, B("DKIM-Signature: own")) IN Numbers(ts, p, Selected(Hdrs(ts), p, HlB)) = Given
\* no instance twice, and a name with all its occurrences given out leaves the rest alone
Once == [][Side = "verify" => /\ \A i, j \in 1..Len(slots') : i # j => slots'[i].n # slots'[j].n /\ slots'[i].k # slots'[j].k
                              /\ (Free(fields'[1]) = {} => slots' = slots)]_vars

Key == "ed_a"
Forged(ts) == IdealField(Msg(ts), [Plain EXCEPT !.kid = Key, !.hash = "sha256", !.ch = "simple", !.cb = "simple", !.h = hl])
Alter(ts, i) == IF i = 0 THEN ts ELSE [ts EXCEPT ![i] = @ \o B("!")]
Generate ==
  IF ~EmitOn THEN TRUE
  ELSE IF Side = "sign" THEN Emit([data |-> ToHex(Msg(Texts)), list |-> [k \in 1..Len(conf.list) |-> ToHex(B(conf.list[k]))] \o <<>>,
                                   over |-> [k \in 1..Len(conf.over) |-> ToHex(B(conf.over[k]))] \o <<>>, h |-> [k \in 1..Len(H) |-> ToHex(H[k])] \o <<>>])
  ELSE LET ts == Texts f == TLCEval(Forged(ts)) IN
       \A p \in Own : Emit([q |-> ToHex(B("s._domainkey.e.x")), own |-> p,
           k |-> Cardinality({i \in 1..Len(fields) : fields[i] = "D" /\ i < p}) + 1,
           runs |-> [i \in 1..(Len(fields) + 1) |-> [data |-> ToHex(Msg(InsertField(Alter(ts, i - 1), p, f))),
                     good |-> i = 1 \/ \A j \in 1..Len(Given) : Given[j] # Len(fields) - i + 2]] \o <<>>])
=============================================================================
