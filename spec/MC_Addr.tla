------------------------------- MODULE MC_Addr ------------------------------
(* kind "text": every text over Units up to MaxLen units.                    *)
(* kind "list": every address list of up to MaxEntries entries written in    *)
(* the forms below, with what it means alongside (want).                     *)
EXTENDS AddrList
CONSTANTS MaxLen, MaxEntries, EmitOn
Units == {<<97>>, <<64>>, <<34>>, <<40>>, <<41>>, <<60>>, <<62>>, <<44>>, <<32>>, <<92>>, <<13, 10, 32>>, <<255>>}
VARIABLES kind, s, n, want
Init == kind \in {"text", "list"} /\ s = <<>> /\ n = 0 /\ want = <<>>
Addrs == {B("a@b"), B("x.y@c.d")}
Forms(a) == { <<a, <<a>>>>,                                              \* bare
              <<B("<") \o a \o B(">"), <<a>>>>,
              <<B("Joe Doe <") \o a \o B(">"), <<a>>>>,
              <<B("\"D, J\" <") \o a \o B(">"), <<a>>>>,
              <<B("Doe, J <") \o a \o B(">"), <<a>>>>,                   \* separator in the display name
              <<B("(c, (d) \\)) ") \o a, <<a>>>>,                        \* nested comment
              <<a \o B(" (z;\"<)"), <<a>>>>,
              <<B("J <(c)") \o a \o CRLF \o B(" >"), <<a>>>>,
              <<B("\"q\\\"@\"@h"), <<B("q\"@@h")>>>>,                    \* quoted local part
              <<B("\"") \o a \o B(", k@l\""), <<a, B("k@l")>>>>,         \* just a quoted string
              <<B("<>"), <<>>>> }
Sep == {B(","), B(" , "), B(";")}
Entry == \E a \in Addrs : \E f \in Forms(a) : \E z \in Sep :
            /\ s' = (IF n = 0 THEN <<>> ELSE s \o z) \o f[1]
            /\ want' = want \o f[2]
Next == /\ kind' = kind /\ n' = n + 1
        /\ \/ kind = "text" /\ n < MaxLen /\ (\E u \in Units : s' = s \o u) /\ UNCHANGED want
           \/ kind = "list" /\ n < MaxEntries /\ Entry
Spec == Init /\ [][Next]_<<kind, s, n, want>>
R == ParseAddr(s)
Meaning == kind = "list" => R = Ok(want)
\* an address never holds an octet from outside the text
FromText == R.ok => \A i \in 1..Len(R.v) : \A j \in 1..Len(R.v[i]) : \E k \in 1..Len(s) : s[k] = R.v[i][j]
Count(c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Unclosed == (Count(92) = 0 /\ Count(40) = 0 /\ Count(34) % 2 = 1) => ~R.ok
OpenAngle == (Count(92) = 0 /\ Count(40) = 0 /\ Count(34) = 0 /\ Count(60) = 1 /\ Count(62) = 0) => ~R.ok
Generate == EmitOn => Emit([d |-> ToHex(s), ok |-> R.ok, v |-> IF R.ok THEN [i \in 1..Len(R.v) |-> ToHex(R.v[i])] \o <<>> ELSE <<>>])
=============================================================================
