------------------------------ MODULE MC_Sign -------------------------------
(* Signing configurations with at most MaxDev settings unlike the plain one, *)
(* on several messages.  For each: creation fails exactly when a setting is  *)
(* labelled so; a field made as the specification of the signer says is one  *)
(* the specification of the verifier accepts, and states what was configured.*)
EXTENDS Options, KeysPriv, Json
CONSTANTS MaxDev, Msgs, EmitOn
VARIABLES pick
Now == B("1700000000")
\* a variant: the calls it makes, whether it makes creation fail
Opt(f) == [c |-> "opt", n |-> "o", f |-> f, i |-> 1]
H(l) == [k \in 1..Len(l) |-> ToHex(B(l[k]))] \o <<>>
Sig(i, alg, kid, form, d, s) ==
  (IF i > 1 THEN <<Opt("addsig")>> ELSE <<>>)
  \o << [Opt("alg") EXCEPT !.i = i] @@ [a |-> alg], [Opt("domain") EXCEPT !.i = i] @@ [data |-> ToHex(B(d))],
        [Opt("selector") EXCEPT !.i = i] @@ [data |-> ToHex(B(s))] >>
  \o (IF kid = "" THEN <<>> ELSE << [Opt("key") EXCEPT !.i = i] @@ [kid |-> kid, form |-> form] >>)
V(cs, fail) == [cs |-> cs, fail |-> fail]
None == V(<<>>, FALSE)
One(f, w) == V(<<Opt(f) @@ w>>, FALSE)
Dims == << "sigs", "digest", "ch", "cb", "heads", "over", "limit", "arc", "ts", "ex", "ident" >>
Table == <<
  << V(Sig(1, "rsa", "rsa_a", "pem", "e.x", "s"), FALSE), V(Sig(1, "ed25519", "ed_a", "seed", "e.x", "s"), FALSE), V(Sig(1, "rsa", "rsa_c", "der", "E.x", "S.2"), FALSE),
     V(Sig(1, "rsa", "rsa_a", "pem8", "e.x", "s") \o Sig(2, "ed25519", "ed_b", "b64sk", "e.x", "t"), FALSE),
     V(Sig(1, "ed25519", "ed_a", "sk", "e.x", "s") \o Sig(2, "rsa", "rsa_b", "pem", "E.X", "t") \o Sig(3, "ed25519", "ed_b", "b64seed", "e.x", "u"), FALSE),
     V(Sig(1, "rsa", "", "", "e.x", "s"), TRUE), V(Sig(1, "ed25519", "", "", "e.x", "s"), TRUE),
     V(Sig(1, "rsa", "rsa_a", "pem", "e.x", "s") \o Sig(2, "ed25519", "", "", "e.x", "t"), TRUE),
     V(Sig(1, "rsa", "rsa_a", "pem", "e.x", "s") \o <<Opt("alg") @@ [a |-> "ed25519"]>>, TRUE),
     V(Sig(1, "ed25519", "ed_a", "seed", "e.x", "s") \o Sig(2, "rsa", "", "", "e.x", "t"), TRUE) >>,
  << None, One("digest", [a |-> "sha256"]), One("digest", [a |-> "sha1"]) >>,
  << None, One("ch", [a |-> "relaxed"]), One("ch", [a |-> "simple"]) >>,
  << None, One("cb", [a |-> "relaxed"]), One("cb", [a |-> "simple"]) >>,
  << None, One("headers", [l |-> <<>>]), One("headers", [l |-> H(<<"From">>)]), One("headers", [l |-> H(<<"SUBJECT", "from", "subject", "nope", "x-a">>)]),
     V(<<Opt("delh") @@ [l |-> H(<<"subject">>)], Opt("addh") @@ [l |-> H(<<"X-A">>)]>>, FALSE) >>,
  << None, One("oversign", [l |-> H(<<"From">>)]), One("oversign", [l |-> H(<<"Subject", "nope", "Subject">>)]), One("oversign", [l |-> H(<<"X-A">>)]) >>,
  << None, One("limit", [d |-> "0"]), One("limit", [d |-> "1"]), One("limit", [d |-> "4"]), One("limit", [d |-> "6"]), One("limit", [d |-> "13"]), One("limit", [d |-> "99999999999"]) >>,
  << None, One("arc", [d |-> "1"]), One("arc", [d |-> "50"]), V(<<Opt("arc") @@ [d |-> "51"]>>, TRUE), One("arc", [d |-> "9"]) >>,
  << None, One("ts", [d |-> "-1"]), One("ts", [d |-> "5"]), One("ts", [d |-> "1700000099"]) >>,
  << None, One("ex", [abs |-> TRUE, d |-> "1700000000"]), One("ex", [abs |-> TRUE, d |-> "4294967296"]), One("ex", [abs |-> FALSE, d |-> "2000000000"]), One("ex", [abs |-> FALSE, d |-> "99999999999"]) >>,
  << None, One("ident", [data |-> ToHex(B("joe@e.x"))]), One("ident", [data |-> ToHex(B("@sub.E.X"))]), One("ident", [data |-> ToHex(B("a; b=c@e.x") )]),
     One("ident", [data |-> ToHex(<<233, 13, 10, 0, 255>> \o B("@e.X"))]) >> >>
Message(m) ==
  CASE m = 1 -> B("From: a@e.x") \o CRLF \o B("Subject: one") \o CRLF \o B("X-A:  spaced  out ") \o CRLF \o B("subject: two") \o CRLF \o CRLF \o B("a  b ") \o CRLF \o B("c ") \o CRLF \o CRLF
    [] m = 2 -> B("x-a: only") \o <<LF>> \o B("FROM: a@e.x") \o <<LF, LF>>
    [] m = 3 -> B("From:a") \o CRLF \o B(" b") \o CRLF \o B("no field at all") \o CRLF \o B("X;Y: z") \o CRLF \o B("From: second")      \* no body, no empty line
    [] m = 4 -> B("Subject: fine") \o CRLF \o B("From: a") \o <<13>> \o B("b@e.x") \o CRLF \o B("Nope:") \o CRLF \o CRLF \o B("no line end")     \* a stray CR
Parsed == [m \in Msgs |-> LET t == Message(m) p == ParseMail(t) IN [hdrs |-> p.hdrs, body |-> BodyOf(t, p), hex |-> ToHex(t)]]

Init == pick \in {[k \in 1..(Len(Dims) + 1) |-> IF k > Len(Dims) THEN m ELSE 1] : m \in Msgs}
Devs == Cardinality({k \in 1..Len(Dims) : pick[k] # 1})
LastDev == IF Devs = 0 THEN 0 ELSE CHOOSE k \in 1..Len(Dims) : pick[k] # 1 /\ \A j \in 1..Len(Dims) : pick[j] # 1 => j <= k
Next == /\ Devs < MaxDev
        /\ \E k \in (LastDev + 1)..Len(Dims) : \E x \in 2..Len(Table[k]) : pick' = [pick EXCEPT ![k] = x]
Spec == Init /\ [][Next]_pick
Var(n) == Table[CHOOSE k \in 1..Len(Dims) : Dims[k] = n][pick[CHOOSE k \in 1..Len(Dims) : Dims[k] = n]]
Calls == Flat([k \in 1..Len(Dims) |-> Table[k][pick[k]].cs])
O == FoldLeft(LAMBDA o, c : OptSet(o, c).opt, NewOptions, Calls)
M == Parsed[pick[Len(Dims) + 1]]

\* ---- told from the labels
Is(n, k) == pick[CHOOSE j \in 1..Len(Dims) : Dims[j] = n] = k
BodySize == CASE pick[Len(Dims) + 1] = 1 -> (IF Is("cb", 2) THEN 8 ELSE 11)
              [] pick[Len(Dims) + 1] = 4 -> 13
              [] OTHER -> IF Is("cb", 2) THEN 0 ELSE 2
LimitAsked == CASE Is("limit", 1) -> 0 [] Is("limit", 2) -> 0 [] Is("limit", 3) -> 1 [] Is("limit", 4) -> 4 [] Is("limit", 5) -> 6 [] Is("limit", 6) -> 13 [] OTHER -> 999999
StrayCR == pick[Len(Dims) + 1] = 4 /\ Is("ch", 2)      \* From is always among the signed
Fail == \/ \E k \in 1..Len(Dims) : Table[k][pick[k]].fail
        \/ (Is("digest", 3) /\ (Is("sigs", 2) \/ Is("sigs", 4) \/ Is("sigs", 5)))
        \/ LimitAsked > BodySize \/ StrayCR
FailsRight == MustFail(M.hdrs, M.body, O) = Fail

\* ---- the field such a configuration is to give, put together here
Num(n) == NormDec(n)
IdealText(o, s) ==
  LET t == (IF o.arc > 0 THEN B("ARC-Message-Signature: i=") \o Decimal(o.arc) ELSE B("DKIM-Signature: v=1"))
           \o B("; a=") \o B(s.alg) \o B("-") \o B(o.digest) \o B("; c=") \o B(o.ch) \o B("/") \o B(o.cb) \o B("; d=") \o s.domain \o B("; s=") \o s.selector
           \o (IF o.identity = <<>> \/ o.arc > 0 THEN <<>> ELSE B("; i=") \o QpEncode(o.identity))
           \o (IF o.limit.set THEN B("; l=") \o Num(o.limit.d) ELSE <<>>)
           \o (IF o.ts.set THEN B("; t=") \o StatedT(o, Now) ELSE <<>>) \o (IF o.ex.set THEN B("; x=") \o StatedX(o, Now) ELSE <<>>)
           \o B(";") \o CRLF \o <<TAB>> \o B("h=") \o FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o <<58>> \o x, <<>>, HList(M.hdrs, o))
           \o B("; bh=") \o B64Encode(Sha(o.digest, BodyLimited(BodyLocal(o.cb, M.body), o.limit))) \o B("; b=")
      pre == Preimage(o.ch, M.hdrs, SignSelected(M.hdrs, ToSign(o)), t)
  IN t \o B64Encode(SignWith(KidOf(s), o.digest, pre.v))
Closed ==
  LET o == O IN Fail \/
  \A k \in 1..Len(o.sigs) :
    LET s == o.sigs[k]
        t == TLCEval(IdealText(o, s))
        all == <<[text |-> t, voff |-> Find(t, 58, 1), name |-> SubSeq(t, 1, Find(t, 58, 1) - 1)]>> \o M.hdrs
        p == ParseSig(t, all[1].voff, LName(all[1]), Now)
        key == [type |-> s.alg, key |-> KeyPub[KidOf(s)], hashes |-> {"sha1", "sha256"}, strict |-> FALSE]
    IN /\ FieldComplaints(t, s, M.hdrs, M.body, o, Now) \ (IF o.arc > 0 /\ o.identity # <<>> THEN {"tags"} ELSE {}) = {}
       /\ p.ok /\ BodyVerdict(p.v, M.body) = RPass /\ SigVerdict(all, 1, p.v, key) = RPass
       /\ p.v.h = HList(M.hdrs, o) /\ p.v.d = Lower(s.domain) /\ p.v.arc = (o.arc > 0) /\ p.v.l.set = o.limit.set
\* ---- what is signed, told without the selection: every field carrying a name of the list, each once, from below
Covers == LET o == O l == HList(M.hdrs, o) IN
  \A i \in 1..Len(M.hdrs) :
    LET h == M.hdrs[i]
        wanted == Stateable(h.name) /\ (o.headers = <<>> \/ LName(h) \in LowerSet(o.headers) \cup LowerSet(o.oversign))
        after == Cardinality({j \in (i + 1)..Len(M.hdrs) : Stateable(M.hdrs[j].name) /\ LName(M.hdrs[j]) = LName(h)})
        times == Cardinality({k \in 1..Len(l) : l[k] = LName(h)})
        over == Cardinality({k \in 1..Len(o.oversign) : Lower(o.oversign[k]) = LName(h)})
        whole == Cardinality({j \in 1..Len(M.hdrs) : Stateable(M.hdrs[j].name) /\ LName(M.hdrs[j]) = LName(h)})
    IN IF wanted THEN times = whole + over /\ after < times ELSE times = over
Generate == IF EmitOn THEN Emit([ev |-> <<[c |-> "optnew", n |-> "o"]>> \o Calls \o <<[c |-> "optget", n |-> "o"]>>, data |-> M.hex, arc |-> ~Is("arc", 1), fail |-> Fail,
              sigs |-> [k \in 1..Len(O.sigs) |-> [kid |-> KidOf(O.sigs[k]), q |-> ToHex(O.sigs[k].selector \o B("._domainkey.") \o Lower(O.sigs[k].domain))]] \o <<>>]) ELSE TRUE
=============================================================================
