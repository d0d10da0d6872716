------------------------------ MODULE MC_Codec ------------------------------
(* Octet strings through both encoders and back, and texts through the       *)
(* quoted-printable decoder.                                                 *)
EXTENDS Codec
CONSTANTS MaxLen, EmitOn
Octets == {0, 255, 61, 59, 65, 95, 32}
Units == {<<61>>, <<51>>, <<68>>, <<100>>, <<95>>, <<32>>, <<13, 10>>, <<13>>, <<59>>, <<128>>, <<51, 68>>}
VARIABLES kind, s, n
Init == kind \in {"octets", "text"} /\ s = <<>> /\ n = 0
Next == /\ n < MaxLen /\ n' = n + 1 /\ kind' = kind
        /\ IF kind = "octets" THEN \E c \in Octets : s' = Append(s, c) ELSE \E u \in Units : s' = s \o u
Spec == Init /\ [][Next]_<<kind, s, n>>
E == B64Encode(s)   Q1 == QpEncode(s)
D(w) == QpDecode(s, w)
B64Trip == kind = "octets" => /\ B64Decode(E) = Ok(s)
                              /\ Len(E) % 4 = 0
                              /\ \A i \in 1..Len(E) : IsB64(E[i]) \/ (E[i] = 61 /\ i >= Len(E) - 1)
QpTrip == kind = "octets" => /\ QpDecode(Q1, FALSE) = Ok(s)
                             /\ \A i \in 1..Len(Q1) : Q1[i] >= 33 /\ Q1[i] <= 126 /\ Q1[i] # 59
\* declaratively: a text decodes iff it is a sequence of safe octets, =XX and white space runs
RECURSIVE Legal(_, _)
Legal(t, w) == IF t = <<>> THEN TRUE
               ELSE IF t[1] = 61 THEN Len(t) >= 3 /\ IsHexC(t[2]) /\ IsHexC(t[3]) /\ Legal(SubSeq(t, 4, Len(t)), w)
               ELSE IF IsSafe(t[1]) THEN Legal(Tail(t), w)
               ELSE IF IsWsp(t[1]) THEN Legal(Tail(t), w)
               ELSE t[1] = CR /\ Len(t) >= 3 /\ t[2] = LF /\ IsWsp(t[3]) /\ Legal(SubSeq(t, 3, Len(t)), w)
Accepts == kind = "text" => \A w \in BOOLEAN : D(w).ok = Legal(s, w)
Linear == \A w \in BOOLEAN : QpLocal(s, w) = D(w) /\ QpLocal(Q1, w) = QpDecode(Q1, w)
Words == kind = "text" => (D(TRUE).ok = D(FALSE).ok)
      /\ (D(FALSE).ok => /\ Len(D(TRUE).v) = Len(D(FALSE).v)
                         /\ \A i \in 1..Len(D(TRUE).v) : D(TRUE).v[i] = D(FALSE).v[i] \/ (D(FALSE).v[i] = 95 /\ D(TRUE).v[i] = SP))
Hx(x) == IF x.ok THEN ToHex(x.v) ELSE ""
Generate == EmitOn => Emit(IF kind = "octets" THEN [k |-> kind, d |-> ToHex(s), b |-> ToHex(E), q |-> ToHex(Q1)]
                           ELSE [k |-> kind, d |-> ToHex(s), ok |-> D(FALSE).ok, f |-> Hx(D(FALSE)), t |-> Hx(D(TRUE))])
=============================================================================
