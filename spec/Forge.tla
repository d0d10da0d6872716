-------------------------------- MODULE Forge -------------------------------
(* The specification as a signer: fills bh= and b= of drafted signature      *)
(* fields.  A draft is                                                       *)
(*   id, msg (hex; the message below the field), parts (of the field text:   *)
(*   [k |-> "lit", d] | [k |-> "bh" | "b", lead, tail, at, ws]), the mode    *)
(*   choices alg hash ch cb lset ld, h (hex names, in order), kid.           *)
(* at/ws: white space ws[n] inserted after at[n] characters of the base64.   *)
(* A draft may lie: hlie about the body hash, slie about what is signed or   *)
(* about the signature's octets, with an amount ln.                          *)
EXTENDS Signer, KeysPriv, Json, IOUtils
Drafts == ndJsonDeserialize(IOEnv.DKIM_DRAFTS)
VARIABLES n, done
Wrap(p, s) == LET cut(i) == IF i = 0 THEN 0 ELSE IF i > Len(p.at) THEN Len(s)
                            ELSE IF p.at[i] > Len(s) THEN Len(s) ELSE p.at[i] IN
  Hex(p.lead) \o Flat([i \in 1..(Len(p.at) + 1) |->
      SubSeq(s, cut(i - 1) + 1, cut(i)) \o (IF i > Len(p.at) THEN <<>> ELSE Hex(p.ws[i]))]) \o Hex(p.tail)
Text1(d, bh, sig) == Flat([i \in 1..Len(d.parts) |->
    LET p == d.parts[i] IN
    CASE p.k = "lit" -> Hex(p.d)
      [] p.k = "bh"  -> Wrap(p, bh)
      [] p.k = "b"   -> IF sig = <<>> THEN <<>> ELSE Wrap(p, sig)])
Other(m) == IF m = "simple" THEN "relaxed" ELSE "simple"
OtherHash(h) == IF h = "sha1" THEN "sha256" ELSE "sha1"
First(s, i) == SubSeq(s, 1, IF i < Len(s) THEN i ELSE Len(s))
Pad(i) == [k \in 1..i |-> (k * 37) % 256]
StatedHash(d, body, lim) ==
  LET can(m, l) == BodyLimited(BodyLocal(m, body), l)
      true == Sha(d.hash, can(d.cb, lim))
      no == [set |-> FALSE, d |-> <<48>>, n |-> 0]
      kind == IF "hlie" \in DOMAIN d THEN d.hlie ELSE "" IN
  CASE kind = ""      -> true
    [] kind = "cut"   -> First(true, d.ln)
    [] kind = "tail"  -> SubSeq(true, d.ln + 1, Len(true))
    [] kind = "ext"   -> true \o Pad(d.ln)
    [] kind = "flip"  -> [true EXCEPT ![1 + (d.ln % Len(true))] = 255 - @]
    [] kind = "pair"  -> LET i == 1 + (d.ln % Len(true)) j == 1 + ((d.ln + 7) % Len(true)) IN    \* two differences that cancel
                         [true EXCEPT ![i] = (@ + 128) % 256, ![j] = (@ + 128) % 256]
    [] kind = "rev"   -> Reverse(true)
    [] kind = "swap"  -> LET i == 1 + (d.ln % Len(true)) j == 1 + ((d.ln + 1) % Len(true)) IN [true EXCEPT ![i] = true[j], ![j] = true[i]]
    [] kind = "nul"   -> LET z == {i \in 1..Len(true) : true[i] = 0} IN                              \* equal up to an octet 0
                         [i \in 1..Len(true) |-> IF \E k \in z : k < i THEN 255 - true[i] ELSE IF z = {} /\ i = Len(true) THEN 255 - true[i] ELSE true[i]]
    [] kind = "case"  -> LET t == B64Encode(true) l == {i \in 1..Len(t) - 4 : (t[i] >= 65 /\ t[i] <= 90) \/ (t[i] >= 97 /\ t[i] <= 122)} IN   \* equal but for letter case
                         B64Decode([i \in 1..Len(t) |-> IF i \in l /\ (i + d.ln) % 5 = 0 THEN (IF t[i] < 97 THEN t[i] + 32 ELSE t[i] - 32) ELSE t[i]]).v
    [] kind = "hash"  -> Sha(OtherHash(d.hash), can(d.cb, lim))
    [] kind = "canon" -> Sha(d.hash, can(Other(d.cb), lim))
    [] kind = "raw"   -> Sha(d.hash, body)
    [] kind = "limit" -> Sha(d.hash, can(d.cb, [set |-> TRUE, d |-> Decimal(d.ln), n |-> d.ln]))
    [] kind = "whole" -> Sha(d.hash, can(d.cb, no))
    [] kind = "plain" -> First(can(d.cb, lim), Len(true))
    [] kind = "twice" -> Sha(d.hash, true)
Made(d, hdrs, sel, text) ==    \* octets of the signature, or Bad where none can be made
  LET kind == IF "slie" \in DOMAIN d THEN d.slie ELSE ""
      over == CASE kind = "other" -> Preimage(Other(d.ch), hdrs, sel, text)
                [] kind = "upward" -> Preimage(d.ch, hdrs, Reverse(sel), text)
                [] kind = "fewer" -> Preimage(d.ch, hdrs, SubSeq(sel, 1, Len(sel) - 1), text)
                [] OTHER -> Preimage(d.ch, hdrs, sel, text)
      pre == CASE ~over.ok -> over
               [] kind = "crlf" -> Ok(over.v \o CRLF)
               [] kind = "hashed" -> Ok(Sha(d.hash, over.v))
               [] kind = "nothing" -> Ok(<<>>)
               [] OTHER -> over
      sig == TLCEval(SignWith(d.kid, IF kind = "hash" THEN OtherHash(d.hash) ELSE d.hash, pre.v)) IN
  IF ~pre.ok THEN Bad
  ELSE Ok(CASE kind = "cut" -> First(sig, d.ln)
            [] kind = "ext" -> sig \o Pad(d.ln)
            [] kind = "lead" -> <<0>> \o sig
            [] kind = "flip" -> [sig EXCEPT ![1 + (d.ln % Len(sig))] = 255 - @]
            [] kind = "zero" -> [k \in 1..Len(sig) |-> 0]
            [] OTHER -> sig)
Fill(d) ==
  LET m == TLCEval(Hex(d.msg))
      p == TLCEval(ParseMail(m))
      lim == [set |-> d.lset, d |-> B(d.ld), n |-> SmallNum(B(d.ld))]
      bh == TLCEval(B64Encode(StatedHash(d, BodyOf(m, p), lim)))
      names == TLCEval([i \in 1..Len(d.h) |-> Hex(d.h[i])])
      sig == TLCEval(Made(d, p.hdrs, Selected(p.hdrs, 0, names), Text1(d, bh, <<>>)))
  IN IF ~sig.ok THEN [id |-> d.id, ok |-> FALSE, text |-> ""]
     ELSE [id |-> d.id, ok |-> TRUE, text |-> ToHex(Text1(d, bh, B64Encode(sig.v)))]
Init == n \in 1..Len(Drafts) /\ done = FALSE
Next == ~done /\ Emit(Fill(Drafts[n])) /\ done' = TRUE /\ n' = n
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
