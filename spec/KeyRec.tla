------------------------------- MODULE KeyRec -------------------------------
(* Key records (RFC 6376 3.6.1, RFC 8463).                                   *)
EXTENDS TagSpec, Codec, DkimJ

ListHas(l, name) == \E k \in 1..Len(l) : l[k] = B(name)
ParseKey(txt) ==
  LET p == ParseTags(txt) IN
  IF ~p.ok THEN Bad ELSE
  LET t == p.v
      has(n) == HasTag(t, n)
      val(n) == Val(t, n)
      hl == IF has("h") THEN ValueList(val("h")) ELSE Ok(<<>>)
      sl == IF has("s") THEN ValueList(val("s")) ELSE Ok(<<B("*")>>)
      tl == IF has("t") THEN ValueList(val("t")) ELSE Ok(<<>>)
      type == IF ~has("k") THEN "rsa" ELSE IF val("k") = B("rsa") THEN "rsa"
              ELSE IF val("k") = B("ed25519") THEN "ed25519" ELSE "none"
      raw == IF has("p") THEN B64Decode(StripLoose(val("p"))) ELSE Bad
  IN IF has("v") /\ val("v") # B("DKIM1") THEN Bad
     ELSE IF ~hl.ok \/ ~sl.ok \/ ~tl.ok \/ type = "none" THEN Bad
     ELSE IF has("h") /\ ~ListHas(hl.v, "sha1") /\ ~ListHas(hl.v, "sha256") THEN Bad
     ELSE IF has("s") /\ ~ListHas(sl.v, "email") /\ ~ListHas(sl.v, "*") THEN Bad
     ELSE IF ~has("p") \/ val("p") = <<>> \/ ~raw.ok THEN Bad
     ELSE IF type = "rsa" /\ ~RsaKeyOk(raw.v) THEN Bad
     ELSE IF type = "ed25519" /\ Len(raw.v) # 32 THEN Bad
     ELSE Ok([type |-> type, key |-> raw.v,
              hashes |-> IF ~has("h") THEN {"sha1", "sha256"}
                         ELSE {x \in {"sha1", "sha256"} : ListHas(hl.v, x)},
              flags |-> tl.v,
              mail |-> IF ~ListHas(sl.v, "*") THEN "named" ELSE IF ListHas(sl.v, "email") THEN "both" ELSE "all",
              strict |-> ListHas(tl.v, "s"), testing |-> ListHas(tl.v, "y")])
\* the record's fate hangs on how non-canonical base64, or a key in another than its DER form, is read
KeyOpen(txt) == LET p == ParseTags(txt) IN
  p.ok /\ HasTag(p.v, "p") /\ Val(p.v, "p") # <<>> /\
  LET raw == B64Decode(StripLoose(Val(p.v, "p"))) IN ~raw.ok \/ (~RsaKeyOk(raw.v) /\ ~RsaKeyNever(raw.v))
=============================================================================
