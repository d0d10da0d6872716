------------------------------- MODULE Ideal --------------------------------
(* An ideal signer for models: one signature field over a message, from a    *)
(* record of what it is to state.                                            *)
EXTENDS Signer, KeysPriv
JoinColon(l) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o <<58>> \o x, <<>>, l)
\* arc, kid, hash, ch, cb, d, s, h (names), lset, ln, extra (further tags, each ended by ;)
Plain == [arc |-> 0, kid |-> "rsa_a", hash |-> "sha256", ch |-> "relaxed", cb |-> "relaxed", d |-> "e.x", s |-> "s",
          h |-> <<"from">>, lset |-> FALSE, ln |-> 0, extra |-> ""]
IdealHead(o) ==
  (IF o.arc > 0 THEN B("ARC-Message-Signature: i=") \o Decimal(o.arc) ELSE B("DKIM-Signature: v=1"))
  \o B("; a=") \o B(KeyType[o.kid]) \o B("-") \o B(o.hash) \o B("; c=") \o B(o.ch) \o B("/") \o B(o.cb)
  \o B("; d=") \o B(o.d) \o B("; s=") \o B(o.s) \o B(";") \o CRLF \o B(" h=") \o JoinColon([k \in 1..Len(o.h) |-> B(o.h[k])])
  \o (IF o.lset THEN B("; l=") \o Decimal(o.ln) ELSE <<>>) \o B("; ") \o B(o.extra) \o B(" bh=")
IdealLimit(o) == [set |-> o.lset, d |-> Decimal(o.ln), n |-> o.ln]
\* m: the message below the field; hashed: the body whose hash is stated
IdealOver(m, hashed, o) ==
  LET p == TLCEval(ParseMail(m))
      t == TLCEval(IdealHead(o) \o B64Encode(Sha(o.hash, BodyLimited(BodyLocal(o.cb, hashed), IdealLimit(o)))) \o B("; b="))
      names == [k \in 1..Len(o.h) |-> B(o.h[k])] \o <<>>
      pre == TLCEval(Preimage(o.ch, p.hdrs, Selected(p.hdrs, 0, names), t))
  IN t \o B64Encode(SignWith(o.kid, o.hash, pre.v))
IdealField(m, o) == IdealOver(m, BodyOf(m, ParseMail(m)), o)
KeyText(kid) == (IF KeyType[kid] = "rsa" THEN B("v=DKIM1; p=") ELSE B("v=DKIM1; k=ed25519; p=")) \o B64Encode(KeyPub[kid])
=============================================================================
