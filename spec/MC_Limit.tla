------------------------------ MODULE MC_Limit ------------------------------
(* A body is written, signed with or without a length limit, then replaced   *)
(* by any other body.  Whether the signature still holds is told without     *)
(* any hash: same canonical body, or the same first l octets of it.          *)
EXTENDS Ideal, Json
CONSTANTS MaxLen, Chars, EmitOn
VARIABLES body, conf
vars == <<body, conf>>
Writing == [set |-> FALSE, n |-> -1, cb |-> "simple", hash |-> "none"]
Init == body = <<>> /\ conf = Writing
Write == conf.n = -1 /\ Len(body) < MaxLen /\ \E c \in Chars : body' = Append(body, c) /\ conf' = conf
Canon(cb) == BodyLocal(cb, body)
Sign == conf.n = -1 /\ \E cb \in Modes, h \in {"sha1", "sha256"} :
          /\ h = (IF Len(body) % 2 = 0 THEN "sha256" ELSE "sha1")
          /\ \/ conf' = [set |-> FALSE, n |-> 0, cb |-> cb, hash |-> h]
             \/ \E n \in 0..(Len(Canon(cb)) + 1) : conf' = [set |-> TRUE, n |-> n, cb |-> cb, hash |-> h]
          /\ body' = body
Next == Write \/ Sign
Spec == Init /\ [][Next]_vars

Bodies == UNION {[1..k -> Chars] : k \in 0..MaxLen}
CanonOf == [cb \in Modes |-> [b \in Bodies |-> TLCEval(BodyLocal(cb, b))]]
BodySeq == SetToSeq(Bodies)
Signed == conf.n >= 0
C1 == CanonOf[conf.cb][body]
Fits == ~conf.set \/ conf.n <= Len(C1)
Holds(b) == LET c == CanonOf[conf.cb][b] IN
            IF ~conf.set THEN c = C1 ELSE Len(c) >= conf.n /\ \A i \in 1..conf.n : c[i] = C1[i]
Below == B("From: a") \o CRLF \o CRLF
O == [Plain EXCEPT !.kid = "rsa_a", !.hash = conf.hash, !.cb = conf.cb, !.lset = conf.set, !.ln = conf.n]
Stated == Sha(conf.hash, BodyLimited(C1, IdealLimit(O)))
\* the field with the right hash; its own signature is another matter and never looked at
Field == IdealHead(O) \o B64Encode(Stated) \o B("; b=AAAA")
Rec == LET h == ParseMail(Field \o CRLF \o Below).hdrs[1] IN ParseSig(h.text, h.voff, LName(h), B("1700000000")).v
OptOf == [limit |-> [set |-> conf.set, d |-> Decimal(conf.n), n |-> conf.n], cb |-> conf.cb]
\* signing is possible exactly when the limit fits; what holds is told by the octets alone
Fitting == Signed => LimitFits(C1, OptOf.limit) = Fits
Exactly == (Signed /\ Fits) => LET s == TLCEval(Rec) IN
             /\ s.l.set = conf.set
             /\ \A b \in Bodies : BodyVerdict(s, b) = (IF Holds(b) THEN RPass ELSE RFail)
Generate == IF ~EmitOn \/ ~Signed THEN TRUE
  ELSE IF ~Fits THEN Emit([body |-> ToHex(body), cb |-> conf.cb, hash |-> conf.hash, l |-> conf.n, lset |-> conf.set, fits |-> FALSE])
  ELSE Emit([body |-> ToHex(body), cb |-> conf.cb, hash |-> conf.hash, l |-> conf.n, lset |-> conf.set, fits |-> TRUE, bh |-> ToHex(B64Encode(Stated)), f |-> ToHex(Field \o CRLF \o Below),
             good |-> [k \in 1..Len(BodySeq) |-> Holds(BodySeq[k])] \o <<>>, b |-> [k \in 1..Len(BodySeq) |-> ToHex(BodySeq[k])] \o <<>>])
=============================================================================
