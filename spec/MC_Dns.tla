------------------------------- MODULE MC_Dns -------------------------------
(* DNS responses built record by record, with what they say (want), then     *)
(* possibly cut short; and every short host name.                            *)
EXTENDS Dns
CONSTANTS MaxRecs, MaxName, EmitOn
VARIABLES phase, qd, an, body, want, ends, name
vars == <<phase, qd, an, body, want, ends, name>>
Init == /\ phase \in {"build", "names"} /\ qd = 0 /\ an = 0 /\ body = <<>> /\ want = <<>> /\ ends = <<>> /\ name = <<>>
W2(n) == <<n \div 256, n % 256>>
Names == {<<0>>, <<192, 12>>, <<1, 97, 0>>, <<2, 97, 98, 192, 12>>}
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN <<>> ELSE <<c>> \o Rep(c, n - 1)
Txts == { <<>>, <<<<>>>>, <<<<97>>>>, <<<<98, 99>>, <<>>, <<0>>>>, <<Rep(100, 255), <<101>>>> }
Rdata(ss) == Flat([i \in 1..Len(ss) |-> <<Len(ss[i])>> \o ss[i]])
Rr(nm, type, rd) == nm \o W2(type) \o W2(1) \o <<0, 0, 0, 60>> \o W2(Len(rd)) \o rd
Question == /\ phase = "build" /\ an = 0 /\ qd < 2 /\ qd' = qd + 1
            /\ \E nm \in Names : body' = body \o nm \o W2(16) \o W2(1)
            /\ UNCHANGED <<phase, an, want, ends, name>>
Txt == /\ phase = "build" /\ an < MaxRecs /\ an' = an + 1
       /\ \E nm \in Names : \E ss \in Txts : body' = body \o Rr(nm, 16, Rdata(ss)) /\ want' = want \o Flat(ss)
       /\ ends' = Append(ends, Len(body')) /\ UNCHANGED <<phase, qd, name>>
Other == /\ phase = "build" /\ an < MaxRecs /\ an' = an + 1
         /\ \E nm \in Names : \E ty \in {1, 5, 272} : body' = body \o Rr(nm, ty, <<3, 97, 98>>)
         /\ ends' = Append(ends, Len(body')) /\ UNCHANGED <<phase, qd, want, name>>
\* cut inside the last record (phase cut) or claim more records than there are (phase more)
Cut == /\ phase = "build" /\ an > 0 /\ phase' = "cut"
       /\ \E k \in 1..3 : body' = SubSeq(body, 1, Len(body) - k)
       /\ UNCHANGED <<qd, an, want, ends, name>>
More == phase = "build" /\ phase' = "more" /\ an' = an + 1 /\ UNCHANGED <<qd, body, want, ends, name>>
\* the header's other counts and flags mean nothing to the TXT data
Name == phase = "names" /\ Len(name) < MaxName /\ (\E c \in {97, 90, 48, 45, 46, 95, 32} : name' = Append(name, c))
        /\ UNCHANGED <<phase, qd, an, body, want, ends>>
Next == Question \/ Txt \/ Other \/ Cut \/ More \/ Name
Spec == Init /\ [][Next]_vars
Msg == <<18, 52, 129, 128>> \o W2(qd) \o W2(an) \o <<0, 0, 0, 0>> \o body
R == DnsTxt(Msg)
Exact == phase = "build" => R = [r |-> "txt", v |-> want]
Overrun == phase = "cut" => R.r = "fail"
\* names: a label-wise reading
Legal == phase = "names" =>
   (DomainOk(name) <=> /\ name # <<>>
                       /\ \A i \in 1..Len(name) : IsAlnum(name[i]) \/ name[i] \in {45, 46}
                       /\ \A i \in 1..Len(name) : (name[i] \in {45, 46} /\ (i = 1 \/ i = Len(name) \/ name[i - 1] = 46 \/ name[i + 1] = 46)) => FALSE)
Generate == EmitOn => Emit(IF phase = "names" THEN [k |-> "name", d |-> ToHex(name), ok |-> DomainOk(name)]
                           ELSE [k |-> "dns", d |-> ToHex(Msg), r |-> R.r, v |-> ToHex(R.v)])
=============================================================================
