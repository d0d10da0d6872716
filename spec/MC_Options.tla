----------------------------- MODULE MC_Options -----------------------------
(* Every sequence of at most MaxCalls option calls.  What must be read back  *)
(* is told from the history of calls and their labels alone: the last        *)
(* successful call of its kind, or the default; names as sets.               *)
EXTENDS Options, Json
CONSTANTS MaxCalls, EmitOn
VARIABLES hist, opt
vars == <<hist, opt>>
NoKind == ""
C(kind, i, good, e) == [kind |-> kind, i |-> i, good |-> good, e |-> [c |-> "opt", n |-> "o", i |-> i] @@ e]
H(l) == [k \in 1..Len(l) |-> ToHex(B(l[k]))] \o <<>>
Menu == {
  C("alg", 1, TRUE, [f |-> "alg", a |-> "rsa"]), C("alg", 1, TRUE, [f |-> "alg", a |-> "ed25519"]), C("alg", 2, TRUE, [f |-> "alg", a |-> "ed25519"]),
  C("domain", 1, TRUE, [f |-> "domain", data |-> ToHex(B("e.x"))]), C("domain", 1, FALSE, [f |-> "domain", data |-> ToHex(B("-e.x"))]),
  C("domain", 1, TRUE, [f |-> "domain", data |-> ToHex(B("Q-1.z"))]),
  C("domain", 2, TRUE, [f |-> "domain", data |-> ToHex(B("F.y"))]), C("domain", 2, FALSE, [f |-> "domain", data |-> ""]),
  C("selector", 1, TRUE, [f |-> "selector", data |-> ToHex(B("s"))]), C("selector", 1, FALSE, [f |-> "selector", data |-> ToHex(B("s."))]),
  C("selector", 2, TRUE, [f |-> "selector", data |-> ToHex(B("t.2"))]), C("selector", 2, FALSE, [f |-> "selector", data |-> ToHex(B("a_b"))]),
  C("key", 1, TRUE, [f |-> "key", kid |-> "rsa_a", form |-> "pem"]), C("key", 1, TRUE, [f |-> "key", kid |-> "ed_a", form |-> "seed"]),
  C("key", 2, TRUE, [f |-> "key", kid |-> "ed_b", form |-> "b64sk"]), C("key", 2, TRUE, [f |-> "key", kid |-> "rsa_b", form |-> "der"]),
  C("key", 1, FALSE, [f |-> "key", kid |-> "none", form |-> "none", data |-> ToHex(B("-----BEGIN NOTHING-----"))]),
  C("digest", 1, TRUE, [f |-> "digest", a |-> "sha1"]), C("digest", 1, TRUE, [f |-> "digest", a |-> "sha256"]),
  C("ch", 1, TRUE, [f |-> "ch", a |-> "relaxed"]), C("ch", 1, TRUE, [f |-> "ch", a |-> "simple"]), C("cb", 1, TRUE, [f |-> "cb", a |-> "relaxed"]),
  C("headers", 1, TRUE, [f |-> "headers", l |-> H(<<"A", "b">>)]), C("headers", 1, TRUE, [f |-> "headers", l |-> <<>>]),
  C("addh", 1, TRUE, [f |-> "addh", l |-> H(<<"c", "A">>)]), C("addh", 1, TRUE, [f |-> "addh", l |-> H(<<"a">>)]), C("delh", 1, TRUE, [f |-> "delh", l |-> H(<<"a">>)]),
  C("delh", 1, TRUE, [f |-> "delh", l |-> H(<<"FROM", "nope", "To">>)]),
  C("oversign", 1, TRUE, [f |-> "oversign", l |-> H(<<"a", "A">>)]), C("oversign", 1, TRUE, [f |-> "oversign", l |-> <<>>]),
  C("limit", 1, TRUE, [f |-> "limit", d |-> "0"]), C("limit", 1, TRUE, [f |-> "limit", d |-> "18446744073709551615"]),
  C("arc", 1, TRUE, [f |-> "arc", d |-> "3"]), C("arc", 1, TRUE, [f |-> "arc", d |-> "0"]),
  C("ts", 1, TRUE, [f |-> "ts", d |-> "5"]), C("ts", 1, TRUE, [f |-> "ts", d |-> "-1"]),
  C("ex", 1, TRUE, [f |-> "ex", abs |-> TRUE, d |-> "9"]), C("ex", 1, TRUE, [f |-> "ex", abs |-> FALSE, d |-> "7"]),
  C("ident", 1, TRUE, [f |-> "ident", data |-> ToHex(B("x@y"))]), C("ident", 1, TRUE, [f |-> "ident", data |-> ""]),
  C("addsig", 1, TRUE, [f |-> "addsig"]) }
MenuC == Menu
Sigs == Cardinality({k \in 1..Len(hist) : hist[k].kind = "addsig"}) + 1
Init == hist = <<>> /\ opt = NewOptions
Next == Len(hist) < MaxCalls /\ \E c \in MenuC : c.i <= Sigs /\ hist' = Append(hist, c) /\ opt' = OptSet(opt, c.e).opt
Spec == Init /\ [][Next]_vars

\* ---- told from the history
LastOf(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Last1(kind, i, upto) == LastOf({k \in 1..upto : hist[k].kind = kind /\ hist[k].i = i /\ hist[k].good})
Field(kind, i, upto, f, d) == LET k == Last1(kind, i, upto) IN IF k = 0 THEN d ELSE hist[k].e[f]
AlgAt(i, upto) == Field("alg", i, upto, "a", "rsa")
KeyIsFor(k) == IF hist[k].e.kid \in {"rsa_a", "rsa_b"} THEN "rsa" ELSE "ed25519"
Taken(k) == hist[k].good /\ (hist[k].kind = "key" => KeyIsFor(k) = AlgAt(hist[k].i, k))
KeyOf(i, type) == LET k == LastOf({k \in 1..Len(hist) : hist[k].kind = "key" /\ hist[k].i = i /\ hist[k].good /\ KeyIsFor(k) = type /\ Taken(k)}) IN IF k = 0 THEN "" ELSE hist[k].e.kid
DefaultSet == {DefaultHeaders[k] : k \in 1..Len(DefaultHeaders)}
RECURSIVE Names(_)
Names(k) == IF k = 0 THEN DefaultSet
            ELSE LET l == LowerSet(Hexes(hist[k].e.l)) IN
                 CASE hist[k].kind = "headers" -> l
                   [] hist[k].kind = "addh" -> Names(k - 1) \cup l
                   [] hist[k].kind = "delh" -> Names(k - 1) \ l
                   [] OTHER -> Names(k - 1)
N == Len(hist)
Told == [sigs |-> [i \in 1..Sigs |-> [alg |-> AlgAt(i, N), d |-> Field("domain", i, N, "data", ""), s |-> Field("selector", i, N, "data", ""),
                                      rsa |-> KeyOf(i, "rsa") # "", ed |-> KeyOf(i, "ed25519") # ""]] \o <<>>,
         digest |-> Field("digest", 1, N, "a", "sha256"), ch |-> Field("ch", 1, N, "a", "simple"), cb |-> Field("cb", 1, N, "a", "simple"),
         lset |-> Last1("limit", 1, N) > 0, arc |-> IF Field("arc", 1, N, "d", "0") = "3" THEN 3 ELSE 0,
         tset |-> Last1("ts", 1, N) > 0, xset |-> Last1("ex", 1, N) > 0, ident |-> Field("ident", 1, N, "data", "")]
Holds == /\ OptView(opt) = Told
         /\ \A i \in 1..Sigs : opt.sigs[i].rsa = KeyOf(i, "rsa") /\ opt.sigs[i].ed = KeyOf(i, "ed25519")
         /\ LowerSet(opt.headers) = Names(N)
Numbers == /\ opt.limit.d = B(Field("limit", 1, N, "d", "0"))
           /\ opt.ex.d = B(Field("ex", 1, N, "d", "0")) /\ opt.ex.abs = Field("ex", 1, N, "abs", TRUE)
           /\ opt.ts.now = (Field("ts", 1, N, "d", "-1") = "-1")
LastTaken == N = 0 \/ Taken(N)
\* a refused call changes nothing, and no call touches another signature
Contained == [][/\ (~LastTaken' => opt' = opt)
                /\ LET c == hist'[Len(hist')] IN \A i \in 1..Sigs : (c.kind \in {"alg", "domain", "selector", "key"} /\ c.i # i) => opt'.sigs[i] = opt.sigs[i]]_vars
Generate == IF ~EmitOn \/ N = 0 THEN TRUE ELSE
  Emit([ev |-> [k \in 1..N |-> hist[k].e] \o <<>>, r |-> [k \in 1..N |-> IF Taken(k) THEN "ok" ELSE "perm"] \o <<>>, v |-> Told,
        heads |-> LET s == {ToHex(x) : x \in Names(N)} IN SetToSeq(s),
        over |-> Field("oversign", 1, N, "l", <<>>),
        l |-> Field("limit", 1, N, "d", "0"), t |-> Field("ts", 1, N, "d", "-1"), x |-> Field("ex", 1, N, "d", "0"), xabs |-> Field("ex", 1, N, "abs", TRUE)])
=============================================================================
