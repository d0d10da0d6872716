----------------------------- MODULE MC_EncWord -----------------------------
(* Every text over Units up to MaxLen units, read for encoded words.         *)
EXTENDS Codec
CONSTANTS MaxLen, EmitOn
Units == {<<97>>, <<61>>, <<63>>, <<32>>, <<13, 10, 9>>, B("=?u?q?"), B("?="), B("=?u?B?YWI=?="), B("=?u?Q?_x=3D?="), B("=?u?z?k?=")}
VARIABLES s, n, plain
\* plain: built without any "=" so far
Init == s = <<>> /\ n = 0 /\ plain = TRUE
Next == \E u \in Units : n < MaxLen /\ n' = n + 1 /\ s' = s \o u /\ plain' = (plain /\ \A i \in 1..Len(u) : u[i] # 61)
Spec == Init /\ [][Next]_<<s, n, plain>>
R == EwDecode(s)
\* text without any candidate is only unfolded and stripped of outer white space
NoCrlf(t) == SelectSeq(t, LAMBDA c : c # CR /\ c # LF)
PlainKept == plain => R = Ok(TrimWsp(NoCrlf(s)))
\* a decoded word contributes its octets wherever it stands
Tail1 == R.ok => LET x == EwDecode(s \o B(" =?u?q?W?=")) IN
                 (x.ok /\ Find(s, 63, 1) = 0) => x = Ok(R.v \o B("W"))
\* nothing is ever longer than what came in
Shrinks == R.ok => Len(R.v) <= Len(s)
Generate == EmitOn => Emit([d |-> ToHex(s), open |-> EwOpen(s), ok |-> R.ok, v |-> IF R.ok THEN ToHex(R.v) ELSE ""])
=============================================================================
