----------------------------- MODULE MC_KeyRec ------------------------------
(* Key records assembled tag by tag from labelled variants, and the verdict  *)
(* on every sort of signature under each of them.  Profiles of signatures:   *)
(* what signed it, and whether its identity lies in the domain itself.       *)
EXTENDS Verifier, Keys, Json
CONSTANTS MaxDev, EmitOn
VARIABLES pick, lay
vars == <<pick, lay>>
No == <<0>>
V(t, g) == [t |-> t, g |-> g]
Good(s) == V(B(s), TRUE)   Ill(s) == V(B(s), FALSE)
Fold == CRLF \o <<SP>>
K64(kid) == B64Encode(KeyPub[kid])
Broken(s, n) == SubSeq(s, 1, n) \o Fold \o SubSeq(s, n + 1, Len(s))
\* p variants are good for one key type: t of the key held
P(t, kid, type) == [t |-> t, g |-> kid # "", kid |-> kid, type |-> type]
Order == << "v", "k", "p", "h", "s", "t", "n", "K" >>
Table == <<
  << V(No, TRUE), Good("DKIM1"), Ill("DKIM2"), Ill("dkim1"), Ill(""), Ill("1"), Ill("DKIM1 x") >>,
  << V(No, TRUE), Good("rsa"), Good("ed25519"), Ill("RSA"), Ill(""), Ill("dsa"), Ill("rsa ed25519"), Ill("ed448") >>,
  << P(K64("rsa_a"), "rsa_a", "rsa"), P(K64("ed_a"), "ed_a", "ed25519"), P(No, "", ""), P(<<>>, "", ""), P(K64("rsa_b"), "rsa_b", "rsa"), P(K64("ed_b"), "ed_b", "ed25519"),
     P(Broken(K64("rsa_a"), 17), "rsa_a", "rsa"), P(Broken(K64("ed_a"), 43), "ed_a", "ed25519"), P(B64Encode(SubSeq(KeyPub["ed_a"], 1, 31)), "", ""),
     P(B64Encode(Append(KeyPub["ed_a"], 7)), "", ""), P(B64Encode(SubSeq(KeyPub["rsa_a"], 1, 99)), "", ""), P(B("AAAA"), "", "") >>,
  << V(No, TRUE), Good("sha256"), Good("sha1"), Good("sha1:sha256"), Good("sha256:x"), V(B("x :") \o Fold \o B("sha1 "), TRUE), Good("sha256:"), Good("sha256:sha1"), Good("sha1:x:sha256"), Good("sha256:x:y:sha1:z"),
     Ill("x"), Ill(""), Ill("SHA256"), Ill("sha256::sha1"), Ill(":"), Ill("sha2561"), Ill("sha 256") >>,
  << V(No, TRUE), Good("email"), Good("*"), Good("x:email"), Good("email:x"), Good("x : * "), Good("*:x:y"), Good("x:y:email:z"), Ill("tlsrpt"), Ill(""), Ill("Email"), Ill("email::x"), Ill("e mail"), Ill("emailx") >>,
  << V(No, TRUE), Good("y"), Good("s"), Good("y:s"), Good("s : y"), Good("S"), Good("Y"), Good(""), Good("z:ys"), Good("y:a:s"), Good("s:a:b:y:c"), Good("a:b:c"), Ill("y::s"), V(B("z :") \o Fold \o B(" s"), TRUE) >>,
  << V(No, TRUE), Good("a note"), Good("") >>,
  << V(No, TRUE), Good("dsa") >> >>
Tails == << V(<<>>, TRUE), Good(";"), Good(" ; "), Ill(";;"), Ill("; v"), Ill("; =y"), Ill("; n=1; n=1"), V(<<59>> \o B("g=") \o <<233>>, FALSE), Ill("garbage; here") >>
Lays == 1..3
Count(k) == IF k > Len(Order) THEN Len(Tails) ELSE Len(Table[k])
Init == pick = [k \in 1..(Len(Order) + 1) |-> 1] /\ lay \in Lays
Devs == Cardinality({k \in DOMAIN pick : pick[k] # 1})
LastDev == IF Devs = 0 THEN 0 ELSE CHOOSE k \in DOMAIN pick : pick[k] # 1 /\ \A j \in DOMAIN pick : pick[j] # 1 => j <= k
Next == /\ Devs < MaxDev
        /\ \E k \in (LastDev + 1)..(Len(Order) + 1) : \E x \in 2..Count(k) : pick' = [pick EXCEPT ![k] = x]
        /\ lay' = lay
Spec == Init /\ [][Next]_vars
Idx(n) == CHOOSE k \in 1..Len(Order) : Order[k] = n
Var(n) == Table[Idx(n)][pick[Idx(n)]]
Has(n) == Var(n).t # No
Text1(n) == IF ~Has(n) THEN <<>>
            ELSE IF lay = 2 THEN <<SP>> \o B(n) \o <<SP, 61>> \o Fold \o Var(n).t \o <<TAB, 59>> ELSE B(n) \o <<61>> \o Var(n).t \o <<59>>
Names == IF lay = 3 THEN Reverse(Order) ELSE Order
Text2 == LET all == Flat([k \in 1..Len(Names) |-> Text1(Names[k])]) IN SubSeq(all, 1, Len(all) - 1) \o Tails[pick[Len(Order) + 1]].t
\* what the labels say
Type == IF Has("k") /\ Var("k").t = B("ed25519") THEN "ed25519" ELSE "rsa"
Usable == /\ \A k \in 1..Len(Order) : Table[k][pick[k]].g
          /\ Tails[pick[Len(Order) + 1]].g
          /\ Var("p").type = Type
          /\ ~(pick[7] # 1 /\ pick[9] = 7)
Words(n) == {x \in {"sha1", "sha256", "y", "s"} : \E q \in ToSet(SplitAt(Var(n).t, 58)) : StripLoose(q) = B(x)}
Hashes == IF ~Has("h") THEN {"sha1", "sha256"} ELSE Words("h") \cap {"sha1", "sha256"}
Strict == Has("t") /\ "s" \in Words("t")
Testing == Has("t") /\ "y" \in Words("t")
Got == ParseKey(Text2)
Agree == LET g == Got IN g.ok = Usable /\ (g.ok => g.v.type = Type /\ g.v.key = KeyPub[Var("p").kid] /\ g.v.hashes = Hashes /\ g.v.strict = Strict /\ g.v.testing = Testing)

Profiles == << [kid |-> "rsa_a", hash |-> "sha256", same |-> TRUE, arc |-> FALSE], [kid |-> "rsa_a", hash |-> "sha256", same |-> FALSE, arc |-> FALSE],
               [kid |-> "rsa_a", hash |-> "sha1", same |-> TRUE, arc |-> FALSE], [kid |-> "ed_a", hash |-> "sha256", same |-> TRUE, arc |-> FALSE],
               [kid |-> "ed_a", hash |-> "sha256", same |-> FALSE, arc |-> FALSE], [kid |-> "rsa_a", hash |-> "sha256", same |-> FALSE, arc |-> TRUE] >>
Verdict(f) == IF ~Usable THEN "unusable"
              ELSE IF f.hash \notin Hashes \/ KeyType[f.kid] # Type \/ (Strict /\ ~f.same /\ ~f.arc) THEN "permerror"
              ELSE IF Var("p").kid = f.kid THEN "ok" ELSE "fail"
\* the judgement the verifier makes, without any octets: ends where the public key comes in
Judged(f, key) == IF f.hash \notin key.hashes \/ KeyType[f.kid] # key.type \/ (~f.arc /\ key.strict /\ ~f.same) THEN "permerror"
                  ELSE IF key.key = KeyPub[f.kid] THEN "ok" ELSE "fail"
Decides == LET g == Got IN g.ok => \A k \in 1..Len(Profiles) : Judged(Profiles[k], g.v) = Verdict(Profiles[k])
\* testing mode changes nothing
TestingInert == LET g == Got IN g.ok => \A k \in 1..Len(Profiles) : Judged(Profiles[k], g.v) = Judged(Profiles[k], [g.v EXCEPT !.testing = ~@])
Generate == IF EmitOn THEN LET g == Got IN Emit([t |-> ToHex(Text2), ok |-> Usable, verdicts |-> [k \in 1..Len(Profiles) |-> Verdict(Profiles[k])] \o <<>>,
    v |-> IF ~g.ok THEN [x |-> 0] ELSE [type |-> g.v.type, key |-> ToHex(g.v.key), soft |-> g.v.testing, hashes |-> g.v.hashes,
                                          flags |-> [k \in 1..Len(g.v.flags) |-> ToHex(g.v.flags[k])] \o <<>>, mail |-> g.v.mail]]) ELSE TRUE
=============================================================================
