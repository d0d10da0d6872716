------------------------------- MODULE MC_Tags ------------------------------
(* Every text over Units up to MaxLen units, read as a tag list.             *)
EXTENDS TagSpec
CONSTANTS MaxLen, EmitOn
\* a, A: names; "=" ";"; blank; CRLF; a printable that is no name octet; underscore; a forbidden octet
Units == {<<97>>, <<65>>, <<61>>, <<59>>, <<32>>, <<13, 10>>, <<45>>, <<95>>, <<128>>}
VARIABLES s, n
Init == s = <<>> /\ n = 0
Next == \E u \in Units : n < MaxLen /\ n' = n + 1 /\ s' = s \o u
Spec == Init /\ [][Next]_<<s, n>>
P == ParseTags(s)
D == TagsDecl(s)
Agree == P.ok = D.ok /\ (P.ok => [i \in 1..Len(P.v) |-> [n |-> P.v[i].n, v |-> P.v[i].v]] = D.v)
Distinct == P.ok => Cardinality(TagNames(P.v)) = Len(P.v)
Offsets == P.ok => \A i \in 1..Len(P.v) : SubSeq(s, P.v[i].off + 1, P.v[i].off + Len(P.v[i].v)) = P.v[i].v
\* white space around the pieces never changes what is read
Blank == (P.ok /\ n < MaxLen) => ParseTags(<<SP>> \o s \o <<SP>>).ok
\* every tag is where it says, between "=" and ";"
Raw == P.ok => \A i \in 1..Len(P.v) : /\ s[P.v[i].lo - 1] = 61
                                      /\ P.v[i].hi = Len(s) \/ s[P.v[i].hi + 1] = 59
Generate == EmitOn => Emit([d |-> ToHex(s), ok |-> P.ok,
     t |-> IF P.ok THEN [i \in 1..Len(P.v) |-> [n |-> ToHex(P.v[i].n), v |-> ToHex(P.v[i].v),
                                                o |-> IF P.v[i].v = <<>> THEN -1 ELSE P.v[i].off]] \o <<>> ELSE <<>>])
=============================================================================
