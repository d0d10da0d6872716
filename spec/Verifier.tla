------------------------------ MODULE Verifier ------------------------------
(* Verification of one signature over one message.                           *)
(* hdrs: sequence of [text, voff, name] as the parser delivers them.         *)
EXTENDS SigField, KeyRec, CanonHeader, CanonBody

LName(h) == Lower(h.name)

(* C12, declaratively: the n-th occurrence of a name in the list stands for  *)
(* the n-th field of that name from the bottom.                              *)
OccursBefore(list, k) == Cardinality({j \in 1..(k - 1) : Lower(list[j]) = Lower(list[k])})
FromBottom(hdrs, own, name, n) ==    \* index of the n-th (0 = last) field of that name, 0 if none;
                                     \* own: the signature's field, which never counts (0: none)
  LET idx == {i \in 1..Len(hdrs) : i # own /\ hdrs[i].name # <<>> /\ LName(hdrs[i]) = name}
      c == {i \in idx : Cardinality({j \in idx : j > i}) = n}
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
Selected(hdrs, own, list) ==
  SelectSeq(TLCEval([k \in 1..Len(list) |-> FromBottom(hdrs, own, Lower(list[k]), OccursBefore(list, k))]),
            LAMBDA i : i # 0)

(* the signed octets: canonical selected fields, each with CRLF, then the    *)
(* signature field without its b= value and without CRLF                     *)
Preimage(mode, hdrs, sel, sigtext) ==
  LET cs == TLCEval([k \in 1..Len(sel) |-> HeaderLocal(mode, hdrs[sel[k]].text)])
      me == HeaderLocal(mode, sigtext)
  IN IF ~me.ok \/ (\E k \in 1..Len(cs) : ~cs[k].ok) THEN Bad
     ELSE Ok(FoldLeft(LAMBDA a, x : a \o x.v \o CRLF, <<>>, cs) \o me.v)

BodyHash(sig, body) == Sha(sig.hash, BodyLimited(BodyLocal(sig.cb, body), sig.l))

(* outcome classes: [r, ar] *)
RPass      == [r |-> "ok",   ar |-> ""]
RPermerror == [r |-> "perm", ar |-> "permerror"]
RFail      == [r |-> "perm", ar |-> "fail"]
RTemp      == [r |-> "temp", ar |-> "temperror"]
RAny       == [r |-> "any",  ar |-> "any"]

\* body hash evaluation of an admitted signature
BodyVerdict(sig, body) ==
  IF ~sig.bh.ok THEN RAny
  ELSE IF BodyHash(sig, body) = sig.bh.v THEN RPass ELSE RFail

SigVerdict(hdrs, own, sig, key) ==
  IF sig.hash \notin key.hashes THEN RPermerror
  ELSE IF sig.alg # key.type THEN RPermerror
  ELSE IF ~sig.arc /\ key.strict /\ sig.d # sig.mdom THEN RPermerror
  ELSE LET p == Preimage(sig.ch, hdrs, Selected(hdrs, own, sig.h), WithoutB(hdrs[own].text, sig)) IN
       IF ~p.ok THEN RPermerror
       ELSE IF ~sig.b.ok THEN RAny
       ELSE IF (IF sig.alg = "rsa" THEN RsaVerify(key.key, sig.hash, p.v, sig.b.v)
                ELSE EdVerify(key.key, Sha(sig.hash, p.v), sig.b.v))
            THEN RPass ELSE RFail

KeyQuery(sig) == sig.s \o B("._domainkey.") \o sig.d

\* which fields a validator collects
Collects(type, h) == (type = "dkim" /\ LName(h) = B("dkim-signature"))
                     \/ (type = "arc" /\ LName(h) = B("arc-message-signature"))
Collected(type, hdrs) == SelectSeq([i \in 1..Len(hdrs) |-> i], LAMBDA i : Collects(type, hdrs[i]))
=============================================================================
