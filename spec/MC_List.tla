------------------------------- MODULE MC_List ------------------------------
(* Every text over Units up to MaxLen, read as a colon list, and white space *)
(* reads of each kind at each position of it.                                *)
EXTENDS Lexis
CONSTANTS MaxLen, EmitOn
Units == {<<97>>, <<58>>, <<32>>, <<9>>, <<13>>, <<10>>}
Kinds == {"crlf", "wsp", "loose", "fws"}
VARIABLES s
Init == s = <<>>
Next == \E u \in Units : Len(s) < MaxLen /\ s' = s \o u
Spec == Init /\ [][Next]_<<s>>
L == ValueList(s)
NoCrIn(t) == \A i \in 1..Len(t) : t[i] # CR
Agree == NoCrIn(s) => L = ListDecl(s)
\* elements are never empty and never carry blanks at their ends
Folded == \A i \in 1..Len(s) : s[i] = CR => i + 2 <= Len(s) /\ s[i + 1] = LF /\ IsWsp(s[i + 2])
Trimmed == (L.ok /\ Folded) => \A i \in 1..Len(L.v) : L.v[i] # <<>> /\ ~IsWsp(L.v[i][1]) /\ ~IsWsp(L.v[i][Len(L.v[i])])
StrayRefused == (\E i \in 1..Len(s) : s[i] = CR /\ (i = Len(s) \/ s[i + 1] # LF)) => ~L.ok
\* what a read consumes is white space of its kind
Shape(k, t) == CASE k = "crlf" -> t \in {<<>>, CRLF}
                 [] k = "wsp" -> t = <<>> \/ (Len(t) = 1 /\ IsWsp(t[1]))
                 [] k = "loose" -> t = <<>> \/ (Len(t) = 1 /\ IsLoose(t[1]))
                 [] k = "fws" -> LET c == Find(t, CR, 1) IN
                      IF c = 0 THEN \A i \in 1..Len(t) : IsWsp(t[i])
                      ELSE /\ \A i \in (1..Len(t)) \ {c, c + 1} : IsWsp(t[i])
                           /\ c + 2 <= Len(t) /\ t[c + 1] = LF
Reads == \A k \in Kinds : \A i \in 1..(Len(s) + 1) :
           LET x == ReadWs(k, s, i) IN x.err \/ Shape(k, SubSeq(s, i, i + x.n - 1))
\* FWS is read to its end: the next octet is no WSP
Whole == \A i \in 1..(Len(s) + 1) : LET x == ReadWs("fws", s, i) IN
           (~x.err /\ x.n > 0 /\ i + x.n <= Len(s)) => ~IsWsp(s[i + x.n])
Generate == EmitOn => Emit([d |-> ToHex(s), ok |-> L.ok,
     v |-> IF L.ok THEN [i \in 1..Len(L.v) |-> ToHex(L.v[i])] \o <<>> ELSE <<>>,
     w |-> [k \in Kinds |-> [i \in 1..(Len(s) + 1) |-> LET x == ReadWs(k, s, i) IN IF x.err THEN -1 ELSE x.n] \o <<>>]])
=============================================================================
