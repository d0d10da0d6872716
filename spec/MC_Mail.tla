------------------------------ MODULE MC_Mail -------------------------------
(* Every stream over Units up to MaxLen units; the parser is then stepped    *)
(* line by line (each ParseLine call is one action).                         *)
EXTENDS Mail, DkimJ
CONSTANTS MaxLen, EmitOn
Units == {<<65>>, <<58>>, <<32>>, <<9>>, <<13>>, <<10>>}
VARIABLES m, p, phase
vars == <<m, p, phase>>
Init == m = <<>> /\ p = MailInit /\ phase = "write"
Deliver == phase = "write" /\ Len(m) < MaxLen /\ \E u \in Units : m' = m \o u /\ UNCHANGED <<p, phase>>
Open    == phase = "write" /\ phase' = "parse" /\ UNCHANGED <<m, p>>
ParseLine == phase = "parse" /\ ~p.done /\ p' = MailStep(m, p) /\ UNCHANGED <<m, phase>>
Next == Deliver \/ Open \/ ParseLine
Spec == Init /\ [][Next]_vars /\ WF_vars(ParseLine)

Texts(hs) == [i \in 1..Len(hs) |-> hs[i].text]
Done == phase = "parse" /\ p.done
Agree == Done => /\ Texts(p.hdrs) = FieldsDecl(m)
                 /\ p.body = BodyDecl(m)
\* no octet of a header line is lost: the lines of the fields are the lines of the block
Lossless == Done => FoldLeft(LAMBDA a, h : a \o h.text \o CRLF, <<>>, p.hdrs)
               = FoldLeft(LAMBDA a, l : a \o l \o CRLF, <<>>,
                    LET ls == RawLines(m)
                        stop == {i \in 1..Len(ls) : Chop(ls[i]) = <<>>}
                        n == IF stop = {} THEN Len(ls) ELSE (CHOOSE i \in stop : \A j \in stop : i <= j) - 1
                    IN [i \in 1..n |-> Chop(ls[i])])
NamesOk == Done => \A i \in 1..Len(p.hdrs) :
     LET h == p.hdrs[i] c == Find(h.text, 58, 1) IN
     h.voff = c /\ (c = 0 => h.name = <<>>) /\ (c # 0 => h.name = TrimWsp(SubSeq(h.text, 1, c - 1)))
Monotone == [][phase = "parse" => p'.pos >= p.pos /\ IsPrefix(p.hdrs, p'.hdrs)]_vars
Generate == (EmitOn /\ Done) => Emit([m |-> ToHex(m), body |-> p.body,
     h |-> [i \in 1..Len(p.hdrs) |-> [t |-> ToHex(p.hdrs[i].text), n |-> ToHex(p.hdrs[i].name), v |-> p.hdrs[i].voff]]])
Terminates == (phase = "parse") ~> p.done
=============================================================================
