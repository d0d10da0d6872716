------------------------------ MODULE SigField ------------------------------
(* Admission of a signature field (RFC 6376 3.5, RFC 8463, RFC 8617).        *)
EXTENDS TagSpec, Codec

\* strtol-like reading of x=: optional sign, digits; anything else counts as 0
XValue(v) == LET i == SkipLoose(v, 1)
                 neg == i <= Len(v) /\ v[i] = 45
                 j == IF i <= Len(v) /\ v[i] \in {43, 45} THEN i + 1 ELSE i
             IN [neg |-> neg, d |-> LeadingDigits(v, j)]
\* is x before now (both as decimal strings; now >= 0)
Expired(v, now) == LET x == XValue(v) IN
                   IF x.neg /\ DropZeros(x.d) # <<>> THEN TRUE ELSE NumLess(x.d, now)

FromName == B("from")
Modes == {"simple", "relaxed"}
ModeOf(v) == IF v = B("simple") THEN "simple" ELSE IF v = B("relaxed") THEN "relaxed" ELSE "none"
SubdomainOf(x, d) == x = d \/ EndsWith(x, <<46>> \o d)

AlgOf(v) == CASE v = B("rsa-sha256") -> <<"rsa", "sha256">>
              [] v = B("rsa-sha1") -> <<"rsa", "sha1">>
              [] v = B("ed25519-sha256") -> <<"ed25519", "sha256">>
              [] OTHER -> <<"none", "none">>

\* text: the whole field; voff: octets before the value; lname: lower-cased name; now: decimal
ParseSig(text, voff, lname, now) ==
  LET p   == ParseTags(SubSeq(text, voff + 1, Len(text)))
      arc == lname = B("arc-message-signature")
  IN IF ~p.ok THEN Bad ELSE
  LET t == p.v
      has(n) == HasTag(t, n)
      val(n) == Val(t, n)
  IN IF \E n \in {"d", "a", "b", "bh", "h", "s"} : ~has(n) THEN Bad
     ELSE IF ~arc /\ (~has("v") \/ val("v") # B("1")) THEN Bad
     ELSE IF val("b") = <<>> THEN Bad
     ELSE
  LET alg == AlgOf(val("a"))
      cs  == IF has("c") THEN val("c") ELSE B("simple/simple")
      sl  == Find(cs, 47, 1)
      ch  == ModeOf(IF sl = 0 THEN cs ELSE SubSeq(cs, 1, sl - 1))
      cb  == IF sl = 0 THEN "simple" ELSE ModeOf(SubSeq(cs, sl + 1, Len(cs)))
      hl  == ValueList(val("h"))
      dom == Lower(val("d"))
      im  == IF arc \/ ~has("i") THEN Ok(<<64>> \o dom) ELSE QpDecode(val("i"), FALSE)
      at  == IF im.ok THEN Find(im.v, 64, 1) ELSE 0
      loc == IF at = 0 THEN <<>> ELSE SubSeq(im.v, 1, at - 1)
      idm == IF at = 0 THEN <<>> ELSE Lower(SubSeq(im.v, at + 1, Len(im.v)))
      ai  == IF arc /\ has("i") THEN SmallNum(LeadingDigits(val("i"), 1)) ELSE 0
      lv  == IF has("l") THEN val("l") ELSE <<48>>
  IN IF alg[1] = "none" \/ ch = "none" \/ cb = "none" \/ ~hl.ok THEN Bad
     ELSE IF ~(\E k \in 1..Len(hl.v) : Lower(hl.v[k]) = FromName) THEN Bad
     ELSE IF arc /\ (ai < 1 \/ ai > 50) THEN Bad
     ELSE IF ~arc /\ (at = 0 \/ ~SubdomainOf(idm, dom)) THEN Bad
     ELSE IF has("l") /\ (lv = <<>> \/ Len(lv) > 76 \/ ~AllDigits(lv) \/ NumLess(MaxLong, lv)) THEN Bad
     ELSE IF has("q") /\ val("q") # B("dns/txt") THEN Bad
     ELSE IF has("x") /\ Expired(val("x"), now) THEN Bad
     ELSE Ok([arc |-> arc, d |-> dom, s |-> val("s"), alg |-> alg[1], hash |-> alg[2],
              ch |-> ch, cb |-> cb, h |-> hl.v,
              local |-> loc, mdom |-> IF arc THEN <<>> ELSE idm, inst |-> ai,
              l |-> [set |-> has("l"), d |-> DropZeros(lv), n |-> SmallNum(lv)],
              b |-> B64Decode(StripLoose(val("b"))), bh |-> B64Decode(StripLoose(val("bh"))),
              blo |-> voff + Tag(t, "b").lo, bhi |-> voff + Tag(t, "b").hi])
\* the field with the b= value, and the white space around it, deleted
WithoutB(text, sig) == SubSeq(text, 1, sig.blo - 1) \o SubSeq(text, sig.bhi + 1, Len(text))
=============================================================================
