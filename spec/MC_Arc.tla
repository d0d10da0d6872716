------------------------------- MODULE MC_Arc -------------------------------
(* ARC and DKIM signatures side by side.                                     *)
(* Side "collect": a message grows at its end; `told` keeps, per type of     *)
(* validator, the fields it is to collect, from a table of names.            *)
(* Side "judge": an ARC signature of any instance, with and without version, *)
(* under any key flag, in a message that also bears a DKIM signature; the    *)
(* label alone decides.                                                      *)
EXTENDS Ideal, Json
CONSTANTS MaxFields, Side, EmitOn
VARIABLES fields, told, arc
vars == <<fields, told, arc>>
Kind == << <<"DKIM-Signature: 1", "dkim">>, <<"dkim-SIGNATURE:2", "dkim">>, <<"DKIM-Signature : 3", "dkim">>, <<"ARC-Message-Signature: 4", "arc">>, <<"arc-message-Signature~:5", "arc">>,
           <<"ARC-Seal: 6", "">>, <<"ARC-Authentication-Results: 7", "">>, <<"X-DKIM-Signature: 8", "">>, <<"DKIM-Signatures: 9", "">>, <<"DKIM-Signature 10", "">>, <<"ARC-Message-Signatur: 11", "">>, <<"From: 12", "">>, <<"DKIM_Signature: 13", "">> >>
Arcs == [n : 0..52, v : {"", "v=1; ", "v=2; "}, flag : {"", "; t=s", "; t=y", "; t=y:s"}, ident : {"", " x_i=a@b;"}]
NoArc == [n |-> 0, v |-> "", flag |-> "", ident |-> ""]
Init == fields = <<>> /\ told = [dkim |-> <<>>, arc |-> <<>>, none |-> <<>>] /\ (IF Side = "judge" THEN arc \in Arcs ELSE arc = NoArc)
Add(k) == /\ fields' = Append(fields, k) /\ UNCHANGED arc
          /\ told' = IF Kind[k][2] = "" THEN told ELSE [told EXCEPT ![Kind[k][2]] = Append(@, k)]
Next == Side = "collect" /\ Len(fields) < MaxFields /\ \E k \in 1..Len(Kind) : Add(k)
Spec == Init /\ [][Next]_vars
Tab(s) == LET k == Find(s, 126, 1) IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1) \o <<TAB>> \o SubSeq(s, k + 1, Len(s))
Text(k) == Tab(B(Kind[k][1]))
Mail1 == Flat([i \in 1..Len(fields) |-> Text(fields[i]) \o CRLF]) \o CRLF \o B("body")
Seen(type) == LET h == ParseMail(Mail1).hdrs IN [k \in 1..Len(Collected(type, h)) |-> h[Collected(type, h)[k]].text] \o <<>>
Want(type) == [k \in 1..Len(told[type]) |-> Text(told[type][k])] \o <<>>
Types == {"dkim", "arc", "none"}
Apart == Side = "collect" => \A t \in Types : Seen(t) = Want(t)

Below == B("From: a") \o CRLF \o B("To: b") \o CRLF \o CRLF \o B("body") \o CRLF
Dkim1 == IdealField(Below, Plain)
ArcOpt == [Plain EXCEPT !.arc = 1]
\* the head of an ARC signature with this instance and version, signed over the DKIM signature as well
ArcText ==
  LET m == Dkim1 \o CRLF \o Below
      p == ParseMail(m)
      head == B("ARC-Message-Signature: i=") \o Decimal(arc.n) \o B("; ") \o B(arc.v) \o B("a=rsa-sha256; c=relaxed/relaxed; d=e.x; s=s;") \o CRLF \o B(" h=from:dkim-signature;") \o B(arc.ident) \o B(" bh=")
              \o B64Encode(Sha("sha256", BodyLocal("relaxed", BodyOf(m, p)))) \o B("; b=")
  IN head \o B64Encode(SignWith("rsa_a", "sha256", Preimage("relaxed", p.hdrs, Selected(p.hdrs, 0, <<B("from"), B("dkim-signature")>>), head).v))
JudgeMail == ArcText \o CRLF \o Dkim1 \o CRLF \o Below
KeyTxt == KeyText("rsa_a") \o B(arc.flag)
Judged(type) ==
  LET m == JudgeMail p == ParseMail(m) i == Collected(type, p.hdrs)[1]
      s == ParseSig(p.hdrs[i].text, p.hdrs[i].voff, LName(p.hdrs[i]), B("1700000000")) k == ParseKey(KeyTxt)
  IN IF Len(Collected(type, p.hdrs)) # 1 THEN "count" ELSE IF ~s.ok THEN "refused"
     ELSE IF BodyVerdict(s.v, BodyOf(m, p)) = RPass /\ SigVerdict(p.hdrs, i, s.v, k.v) = RPass /\ s.v.arc = (type = "arc") /\ (type = "arc" => s.v.inst = arc.n) THEN "ok" ELSE "fails"
ArcGood == IF arc.n \in 1..50 THEN "ok" ELSE "refused"
\* the version of an ARC signature means nothing; its instance is 1 to 50; the DKIM signature beside it stands as ever
Decided == Side = "judge" => Judged("arc") = ArcGood /\ Judged("dkim") = "ok"
Generate == IF ~EmitOn THEN TRUE
  ELSE IF Side = "collect" THEN Emit([data |-> ToHex(Mail1), dkim |-> [k \in 1..Len(Want("dkim")) |-> ToHex(Want("dkim")[k])] \o <<>>, arc |-> [k \in 1..Len(Want("arc")) |-> ToHex(Want("arc")[k])] \o <<>>, none |-> <<>>])
  ELSE Emit([data |-> ToHex(JudgeMail), key |-> ToHex(KeyTxt), n |-> arc.n, good |-> ArcGood = "ok"])
=============================================================================
