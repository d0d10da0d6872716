------------------------------- MODULE Signer -------------------------------
(* What creating signatures must produce.  An options record:                *)
(*  sigs: sequence of [alg, domain, selector, rsa, ed] (1 = main, then as      *)
(*    added); rsa and ed name the loaded private keys, "" for none            *)
(*  digest, ch, cb, headers, oversign (octet strings), limit [set, d, n],     *)
(*  arc (number), ts [set, now, d], ex [set, abs, d], identity               *)
EXTENDS Verifier, Mail, Keys

LowerSet(names) == {Lower(names[i]) : i \in 1..Len(names)}
\* names that the tag list (h=) can hold
Stateable(name) == name # <<>> /\ \A i \in 1..Len(name) : IsValC(name[i]) \/ IsWsp(name[i])
SignSelected(hdrs, names) ==     \* indices, bottom to top
  LET set == LowerSet(names)
      idx == SelectSeq([i \in 1..Len(hdrs) |-> i],
               LAMBDA i : Stateable(hdrs[i].name) /\ (set = {} \/ LName(hdrs[i]) \in set))
  IN Reverse(idx)
\* a header that is oversigned is signed; the empty list stands for everything
ToSign(opt) == IF opt.headers = <<>> THEN <<>> ELSE opt.headers \o opt.oversign
HList(hdrs, opt) ==
  LET sel == SignSelected(hdrs, ToSign(opt)) IN
  [k \in 1..Len(sel) |-> LName(hdrs[sel[k]])] \o [k \in 1..Len(opt.oversign) |-> Lower(opt.oversign[k])]

\* decimal addition on digit strings
RECURSIVE AddDec(_, _, _, _)
AddDec(a, b, k, carry) ==    \* k-th digit from the right
  IF k > Len(a) /\ k > Len(b) THEN (IF carry = 1 THEN <<49>> ELSE <<>>)
  ELSE LET x == (IF k <= Len(a) THEN a[Len(a) - k + 1] - 48 ELSE 0)
                + (IF k <= Len(b) THEN b[Len(b) - k + 1] - 48 ELSE 0) + carry
       IN Append(AddDec(a, b, k + 1, x \div 10), 48 + (x % 10))
Plus(a, b) == LET s == DropZeros(AddDec(DropZeros(a), DropZeros(b), 1, 0)) IN IF s = <<>> THEN <<48>> ELSE s
NormDec(a) == IF DropZeros(a) = <<>> THEN <<48>> ELSE DropZeros(a)

StatedT(opt, now) == IF opt.ts.now THEN now ELSE NormDec(opt.ts.d)
StatedX(opt, now) == IF opt.ex.abs THEN NormDec(opt.ex.d)
                     ELSE Plus(IF opt.ts.set THEN StatedT(opt, now) ELSE now, opt.ex.d)

KidOf(s) == IF s.alg = "rsa" THEN s.rsa ELSE s.ed
\* must creation fail
MustFail(hdrs, body, opt) ==
  \/ opt.arc > 50
  \/ ~LimitFits(BodyLocal(opt.cb, body), opt.limit)
  \/ \E k \in 1..Len(opt.sigs) : KidOf(opt.sigs[k]) = ""
  \/ \E k \in 1..Len(opt.sigs) : opt.sigs[k].alg = "rsa" /\ ~FitsKey(opt.sigs[k].rsa, opt.digest)
  \/ \E k \in 1..Len(opt.sigs) : opt.sigs[k].alg = "ed25519" /\ opt.digest # "sha256"
  \/ \E i \in 1..Len(SignSelected(hdrs, ToSign(opt))) :
        ~HeaderLocal(opt.ch, hdrs[SignSelected(hdrs, ToSign(opt))[i]].text).ok

\* No line may exceed what RFC 5322 allows, but for those that hold one thing
\* that is too long by itself: domain, selector and identity share a line, and
\* a field name is never broken.
LineRoom(s, hdrs, opt) ==
  LET names == HList(hdrs, opt)
      longest == FoldLeft(LAMBDA a, x : IF Len(x) > a THEN Len(x) ELSE a, 0, names)
      alone == 100 + Len(s.domain) + Len(s.selector) + 3 * Len(opt.identity) + Len(opt.limit.d)
  IN FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, 998, <<alone, 100 + longest>>)

(* One emitted field (text, no final CRLF) for signature s of opt.           *)
(* Returns the set of complaints; {} when the field is right.                *)
FieldComplaints(text, s, hdrs, body, opt, now) ==
  LET ph == ParseMail(text \o CRLF \o CRLF)
      one == Len(ph.hdrs) = 1 /\ ph.hdrs[1].voff > 0
      f == ph.hdrs[1]
      ls == RawLines(text)
      p == IF one THEN ParseTags(SubSeq(text, f.voff + 1, Len(text))) ELSE Bad
  IN IF ~one THEN {"not one field"}
     ELSE IF LName(f) # (IF opt.arc > 0 THEN B("arc-message-signature") ELSE B("dkim-signature")) THEN {"name"}
     ELSE IF \E i \in 1..Len(ls) : (i < Len(ls) /\ ~EndsWith(ls[i], CRLF)) \/ TrimLoose(ls[i]) = <<>> THEN {"folding"}
     ELSE IF \E i \in 1..Len(ls) : Len(ls[i]) > LineRoom(s, hdrs, opt) + 2 THEN {"long line"}
     ELSE IF ~p.ok THEN {"tag list"}
     ELSE
  LET t == p.v
      has(n) == HasTag(t, n)
      val(n) == Val(t, n)
      want == {"a", "c", "d", "s", "h", "bh", "b"}
              \cup (IF opt.arc > 0 THEN {"i"} ELSE {"v"})
              \cup (IF opt.identity # <<>> THEN {"i"} ELSE {})
              \cup (IF opt.ts.set THEN {"t"} ELSE {}) \cup (IF opt.ex.set THEN {"x"} ELSE {})
              \cup (IF opt.limit.set THEN {"l"} ELSE {})
      sg == [arc |-> opt.arc > 0, hash |-> opt.digest, ch |-> opt.ch, cb |-> opt.cb, l |-> opt.limit,
             blo |-> f.voff + Tag(t, "b").lo, bhi |-> f.voff + Tag(t, "b").hi]
      pre == Preimage(opt.ch, hdrs, SignSelected(hdrs, ToSign(opt)), WithoutB(text, sg))
      bv == B64Decode(StripLoose(val("b")))
  IN IF TagNames(t) # {B(n) : n \in want} THEN {"tags"}
     ELSE {c \in {"v", "i", "a", "c", "d", "s", "t", "x", "l", "h", "bh", "b"} :
       ~ (CASE c = "v" -> opt.arc > 0 \/ val("v") = B("1")
            [] c = "i" -> IF opt.arc > 0 THEN val("i") = Decimal(opt.arc)
                          ELSE opt.identity = <<>> \/ QpDecode(val("i"), FALSE) = Ok(opt.identity)
            [] c = "a" -> AlgOf(val("a")) = <<s.alg, opt.digest>>
            [] c = "c" -> LET sl == Find(val("c"), 47, 1) IN sl > 0
                          /\ ModeOf(SubSeq(val("c"), 1, sl - 1)) = opt.ch
                          /\ ModeOf(SubSeq(val("c"), sl + 1, Len(val("c")))) = opt.cb
            [] c = "d" -> val("d") = s.domain
            [] c = "s" -> val("s") = s.selector
            [] c = "t" -> ~opt.ts.set \/ val("t") = StatedT(opt, now)
            [] c = "x" -> ~opt.ex.set \/ val("x") = StatedX(opt, now)
            [] c = "l" -> ~opt.limit.set \/ val("l") = NormDec(opt.limit.d)
            [] c = "h" -> ValueList(val("h")) = Ok(HList(hdrs, opt))
            [] c = "bh" -> B64Decode(StripLoose(val("bh"))) =
                           Ok(Sha(opt.digest, BodyLimited(BodyLocal(opt.cb, body), opt.limit)))
            [] c = "b" -> pre.ok /\ bv.ok /\
                          (IF s.alg = "rsa" THEN RsaVerify(KeyPub[KidOf(s)], opt.digest, pre.v, bv.v)
                           ELSE EdVerify(KeyPub[KidOf(s)], Sha(opt.digest, pre.v), bv.v)))}

\* cut the returned text into fields (each starts at a line that does not start with WSP)
FieldTexts(text) == LET ph == ParseMail(text \o CRLF \o CRLF) IN [i \in 1..Len(ph.hdrs) |-> ph.hdrs[i].text]
EmittedComplaints(text, hdrs, body, opt, now) ==
  LET fs == FieldTexts(text) n == Len(opt.sigs) IN
  IF Len(fs) # n THEN {"number of fields"}
  ELSE IF text # FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o CRLF \o x, <<>>, fs) THEN {"layout"}
  ELSE UNION {FieldComplaints(fs[n + 1 - k], opt.sigs[k], hdrs, body, opt, now) : k \in 1..n}
=============================================================================
