---------------------------- MODULE MC_SigField -----------------------------
(* Signature fields assembled tag by tag from labelled variants, at most     *)
(* MaxDev of them not the plain one: the field is admitted exactly when every*)
(* variant is labelled good and i= lies in d=, and reports what it states.   *)
EXTENDS SigField, Json
CONSTANTS MaxDev, Arc, Part, Parts, EmitOn
VARIABLES pick, lay
vars == <<pick, lay>>
Now == B("1700000000")
No == <<0>>                                   \* tag absent
V(t, g) == [t |-> t, g |-> g]
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
Fold == CRLF \o <<SP>>
Good(s) == V(B(s), TRUE)   Ill(s) == V(B(s), FALSE)
\* first variant: the plain one
Vs(n) ==
  CASE n = "v" -> IF Arc THEN << V(No, TRUE), Good("1"), Good("2") >>
                  ELSE << Good("1"), V(No, FALSE), Ill("2"), Ill(""), Ill("01"), Ill("1.0"), Ill("1 1") >>
    [] n = "a" -> << Good("rsa-sha256"), Good("rsa-sha1"), Good("ed25519-sha256"), V(No, FALSE), Ill("RSA-SHA256"), Ill("rsa-sha512"),
                     Ill(""), Ill("ed25519-sha1"), Ill("rsa-sha256,x"), Ill("rsa"), Ill("rsa -sha256") >>
    [] n = "b" -> << Good("QUJD"), V(No, FALSE), Ill(""), V(B("Q UJ") \o Fold \o B("D"), TRUE), Good("QQ==") >>
    [] n = "bh" -> << Good("AQIDBA=="), V(No, FALSE), Good(""), V(B("AQI") \o Fold \o B("DBA= ="), TRUE) >>
    [] n = "c" -> << Good("relaxed/relaxed"), V(No, TRUE), Good("simple/simple"), Good("simple/relaxed"), Good("relaxed/simple"), Good("simple"), Good("relaxed"),
                     Ill(""), Ill("/"), Ill("relaxed/"), Ill("/simple"), Ill("Simple/simple"), Ill("relaxed/Relaxed"), Ill("nofws"), Ill("simple/nofws"),
                     Ill("simple/simple/simple"), Ill("simple /simple"), Ill("relaxed/relaxedx") >>
    [] n = "d" -> << Good("e.com"), Good("E.Com"), V(No, FALSE), Good("com"), Good("s.e.com"), Good("xe.com") >>
    [] n = "h" -> << Good("from"), Good("To:FROM:to"), V(B("to :") \o Fold \o B("From"), TRUE), Good("From:"), V(No, FALSE), Ill("to"), Ill("fromx"), Ill(""),
                     Ill("from::to"), Ill(":from"), Ill("x-from:From-x"), Ill("fr om"), Good("a:b:c:d:e:f:g:fRoM") >>
    [] n = "i" -> IF Arc THEN << Good("1"), Good("50"), Good("9"), Good("10"), V(No, FALSE), Ill("0"), Ill("51"), Ill(""), Ill("100"), Ill("4294967297"), Ill("18446744073709551617") >>
                  ELSE << V(No, TRUE), Good("@e.com"), Good("joe@E.COM"), Good("a=40b.e.com"), Good("a@b.s.e.com"), Good("=20q=3D@s.e.com"), V(B("a") \o Fold \o B("@e.com"), TRUE),
                          Good("a@xe.com"), Good("a@com"), Good("a@s.xe.com"), Ill("e.com"), Ill(""), Ill("=4x@e.com"), Ill("=4"), Ill("a@"), Good("a@e.com.au"), Ill("a@evil.org@e.com"), Ill("@@e.com"), Ill("a@e.com@xe.org") >>
    [] n = "l" -> << V(No, TRUE), Good("0"), Good("7"), Good("007"), V(Rep(<<48>>, 75) \o <<49>>, TRUE), V(Rep(<<48>>, 76) \o <<49>>, FALSE),
                     Good("9223372036854775807"), Ill("9223372036854775808"), Ill("18446744073709551616"), Ill("18446744073709551617"), Ill("-1"), Ill("+1"), Ill(""), Ill("1 2"), Ill("0x1"), Ill("1a"),
                     V(Rep(<<57>>, 76), FALSE) >>
    [] n = "q" -> << V(No, TRUE), Good("dns/txt"), Ill("http"), Ill(""), Ill("dns"), Ill("dns/txtx") >>
    [] n = "s" -> << Good("sel"), V(No, FALSE), Good("Two.Parts") >>
    [] n = "x" -> << V(No, TRUE), Good("1700000000"), Good("1700000001"), Good("99999999999"), Good("9223372036854775807"), Ill("1699999999"), Ill("0"), Ill("1") >>
    [] n = "t" -> << V(No, TRUE), Good("1"), Good("1700009999"), Good("never"), Good("") >>
    [] n = "zz" -> << V(No, TRUE), Good("x = y"), Good("") >>
    [] n = "V" -> << V(No, TRUE), Good("7") >>
    [] n = "B" -> << V(No, TRUE), Good("??") >>
Order == << "v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "x", "t", "zz", "V", "B" >>
\* tag lists as a whole gone wrong: what is appended
Table == [k \in 1..Len(Order) |-> Vs(Order[k])]
Tails == << V(<<>>, TRUE), Good(";"), Good("; "), Ill(";;"), Ill("; d=e.com"), Ill("; b"), Ill("; =x"), Ill("; y z=1"), V(<<59, 32, 113, 61, 200>>, FALSE), V(<<59>> \o B("k=a") \o <<1>>, FALSE) >>
Lays == 1..3      \* compact; spaced and folded; in reverse order

\* three and more deviations: only those that fall in this part
Slot == FoldLeft(LAMBDA a, x : (a * 7 + x) % 1009, lay, pick) % Parts
Init == pick = [k \in 1..(Len(Order) + 1) |-> 1] /\ lay \in Lays
Devs == Cardinality({k \in DOMAIN pick : pick[k] # 1})
LastDev == IF Devs = 0 THEN 0 ELSE CHOOSE k \in DOMAIN pick : pick[k] # 1 /\ \A j \in DOMAIN pick : pick[j] # 1 => j <= k
Count(k) == IF k > Len(Order) THEN Len(Tails) ELSE Len(Table[k])
Next == /\ Devs < MaxDev
        /\ \E k \in (LastDev + 1)..(Len(Order) + 1) : \E x \in 2..Count(k) : pick' = [pick EXCEPT ![k] = x]
        /\ lay' = lay
        /\ ~(pick'[6] = 4 /\ pick'[8] > 15)        \* an unquoted @ in the local-part of an identity that some reading puts in d=: open
        /\ ~(pick'[6] = 3 /\ pick'[17] = 5)      \* the only d= would be the second one
Spec == Init /\ [][Next]_vars

Var(n) == LET k == CHOOSE k \in 1..Len(Order) : Order[k] = n IN Table[k][pick[k]]
Has(n) == Var(n).t # No
Text1(n) == IF ~Has(n) THEN <<>>
            ELSE IF lay = 2 THEN <<SP>> \o B(n) \o <<SP, 61>> \o Fold \o Var(n).t \o <<TAB, 59>> ELSE B(n) \o <<61>> \o Var(n).t \o <<59>>
Names == IF lay = 3 THEN Reverse(Order) ELSE Order
Value == LET all == Flat([k \in 1..Len(Names) |-> Text1(Names[k])]) IN <<SP>> \o SubSeq(all, 1, Len(all) - 1) \o Tails[pick[Len(Order) + 1]].t
FName == IF Arc THEN (IF lay = 2 THEN B("arc-MESSAGE-signature") ELSE B("ARC-Message-Signature")) ELSE (IF lay = 2 THEN B("dkim-SIGNATURE ") ELSE B("DKIM-Signature"))
Field == FName \o <<58>> \o Value
LowName == IF Arc THEN B("arc-message-signature") ELSE B("dkim-signature")
Got == ParseSig(Field, Len(FName) + 1, LowName, Now)

\* the same by labels: domains as sequences of labels
Labels(s) == CASE s = "d" -> (CASE Var("d").t \in {B("e.com"), B("E.Com")} -> <<"e", "com">> [] Var("d").t = B("com") -> <<"com">>
                                [] Var("d").t = B("s.e.com") -> <<"s", "e", "com">> [] OTHER -> <<"xe", "com">>)
               [] s = "i" -> (LET t == Var("i").t IN
                    CASE t \in {B("@e.com"), B("joe@E.COM"), B("a") \o Fold \o B("@e.com")} -> <<"e", "com">>
                      [] t = B("a=40b.e.com") -> <<"b", "e", "com">> [] t = B("a@b.s.e.com") -> <<"b", "s", "e", "com">>
                      [] t = B("=20q=3D@s.e.com") -> <<"s", "e", "com">> [] t = B("a@xe.com") -> <<"xe", "com">> [] t = B("a@com") -> <<"com">>
                      [] t = B("a@s.xe.com") -> <<"s", "xe", "com">> [] OTHER -> <<"e", "com", "au">>)
Under(x, d) == Len(x) >= Len(d) /\ SubSeq(x, Len(x) - Len(d) + 1, Len(x)) = d
Admit == /\ \A k \in 1..Len(Order) : Var(Order[k]).g
         /\ Tails[pick[Len(Order) + 1]].g
         /\ (Arc \/ ~Has("i") \/ Under(Labels("i"), Labels("d")))
Agree == Got.ok = Admit
States == LET g == Got s == g.v IN g.ok =>
          /\ s.d = Lower(Var("d").t) /\ s.s = Var("s").t
          /\ (s.hash = "sha1") = (Var("a").t = B("rsa-sha1")) /\ (s.alg = "ed25519") = (Var("a").t = B("ed25519-sha256"))
          /\ s.l.set = Has("l") /\ (Has("l") => ~NumLess(Var("l").t, s.l.d) /\ ~NumLess(s.l.d, Var("l").t))
          /\ (~Has("c") => s.ch = "simple" /\ s.cb = "simple")
          /\ (Has("c") => (s.cb = "relaxed") = EndsWith(Var("c").t, B("/relaxed")) /\ (s.ch = "relaxed") = (SubSeq(Var("c").t, 1, 1) = <<114>>))
          /\ (Arc => Decimal(s.inst) = Var("i").t)
          /\ (~Arc /\ ~Has("i") => s.local = <<>> /\ s.mdom = s.d)
          /\ (~Arc /\ Has("i") => Len(s.mdom) >= Len(s.d))
          /\ WithoutB(Field, s) = (LET k == Flat([j \in 1..Len(Names) |-> IF Names[j] = "b" /\ Has("b") THEN (IF lay = 2 THEN B(" b =;") ELSE B("b=;")) ELSE Text1(Names[j])])
                                   IN FName \o <<58, SP>> \o SubSeq(k, 1, Len(k) - 1) \o Tails[pick[Len(Order) + 1]].t)
Generate == LET g == Got IN IF EmitOn /\ (Devs < 3 \/ Slot = Part) THEN Emit([f |-> ToHex(Field), ok |-> Admit, dev |-> Devs, arc |-> Arc,
      v |-> IF ~g.ok THEN [x |-> 0] ELSE
            [d |-> ToHex(g.v.d), s |-> ToHex(g.v.s), alg |-> g.v.alg, hash |-> g.v.hash, ch |-> g.v.ch, cb |-> g.v.cb,
             h |-> [k \in 1..Len(g.v.h) |-> ToHex(g.v.h[k])] \o <<>>, local |-> ToHex(g.v.local), mdom |-> ToHex(g.v.mdom),
             lset |-> g.v.l.set, l |-> ToHex(IF g.v.l.d = <<>> THEN <<48>> ELSE g.v.l.d), arc |-> Arc, inst |-> g.v.inst,
             b |-> ToHex(g.v.b.v), bh |-> ToHex(g.v.bh.v)]]) ELSE TRUE
=============================================================================
