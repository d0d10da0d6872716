----------------------------- MODULE MC_Session -----------------------------
(* Every short history of calls on one validator and its objects, with the   *)
(* resolver's answer, the clock and errno changing in between.  Whatever came *)
(* before, each call gives what it gives in a session of its own, and the     *)
(* class of every failure is the one its cause has.                           *)
(* st: the Api state;  hist: the calls and what is expected of each;          *)
(* ans: which answer the resolver gives;  late: the clock has passed x=;      *)
(* has, key: which signature the objects hold, and which answer to which       *)
(* signature's query (0, ""/0: none).                                        *)
EXTENDS Api, Ideal, Json
CONSTANTS Ambients, MaxCalls, Sigs, Says, Ops, EmitOn
VARIABLES st, hist, ans, late, has, key, n
vars == <<st, hist, ans, late, has, key, n>>

Base == B("From: a@e.x") \o CRLF \o B("Subject: hello  there") \o CRLF \o B("Subject: twice") \o CRLF \o B("LIST-ID: I") \o CRLF \o CRLF
        \o B("one  line ") \o CRLF \o B("and more") \o CRLF \o CRLF
Early == B("1700000000")   Late == B("1700000100")
Spec1(k) == CASE k = 1 -> [Plain EXCEPT !.h = <<"Subject", "From", "subject", "to">>]
              [] k = 2 -> [Plain EXCEPT !.kid = "ed_a", !.ch = "simple", !.cb = "simple", !.s = "ed", !.lset = TRUE, !.ln = 4, !.extra = "x=1700000050;"]
              [] k = 3 -> [Plain EXCEPT !.h = <<"from", "subject">>]                                \* over another body
              [] k = 4 -> [Plain EXCEPT !.hash = "sha1", !.extra = "i=joe@sub.e.x;"]
              [] k = 5 -> [Plain EXCEPT !.extra = "q=dns/txt; l=0x;"]                               \* malformed
              [] k = 6 -> [Plain EXCEPT !.cb = "simple", !.extra = "l=9223372036854775807;"]        \* more than there is: all of it
              [] k = 8 -> [Plain EXCEPT !.h = <<"From", "list-Id", "SUBJECT">>]                     \* names a locale might read otherwise
              [] k = 7 -> [Plain EXCEPT !.cb = "simple", !.h = <<"from">>]                          \* another b
Text1(k) == CASE k = 3 -> IdealOver(Base, B("another"), Spec1(3))
              [] k = 7 -> LET t == IdealField(Base, Spec1(7)) IN [t EXCEPT ![Len(t) - 20] = IF @ = 65 THEN 66 ELSE 65]
              [] OTHER -> IdealField(Base, Spec1(k))
Texts == [k \in Sigs |-> Text1(k)]
List == SetToSortSeq(Sigs, <)
Message == Flat([k \in 1..Len(List) |-> Texts[List[k]] \o CRLF]) \o Base
Query(k) == B(Spec1(List[k]).s) \o B("._domainkey.e.x")
KidHeld(kid, a) == LET rsa == KeyType[kid] = "rsa" IN
  CASE a = "other" -> (IF rsa THEN "rsa_b" ELSE "ed_b") [] a = "type" -> (IF rsa THEN "ed_a" ELSE "rsa_a") [] OTHER -> kid
KeyOf(k, a) ==
  LET kid == Spec1(List[k]).kid
      rest == SubSeq(KeyText(kid), 10, Len(KeyText(kid))) IN    \* after v=DKIM1;
  CASE a = "good" -> KeyText(kid)
    [] a = "other" -> KeyText(KidHeld(kid, a))
    [] a = "type" -> KeyText(KidHeld(kid, a))
    [] a = "strict" -> KeyText(kid) \o B("; t=s:y")
    [] a = "sha256" -> KeyText(kid) \o B("; h=sha256")
    [] a = "sha1" -> KeyText(kid) \o B("; h=sha1")
    [] a = "revoked" -> B("v=DKIM1; p=")
    [] a = "garbage" -> B("this is no key record")
    [] a = "short" -> (IF KeyType[kid] = "rsa" THEN B("v=DKIM1; p=") ELSE B("v=DKIM1; k=ed25519; p=")) \o B64Encode(SubSeq(KeyPub[kid], 1, 31))
    [] a = "v2" -> B("v=DKIM2;") \o rest
    [] a = "empty" -> <<>>
    [] a = "fail" -> <<>>
Table(a) == [q \in {Query(k) : k \in 1..Len(List)} |->
               LET k == CHOOSE k \in 1..Len(List) : Query(k) = q IN [q |-> ToHex(q), ok |-> a # "fail", txt |-> ToHex(KeyOf(k, a))]]
TableOf == [a \in Says |-> SetToSeq({Table(a)[q] : q \in DOMAIN Table(a)})]
MsgHex == ToHex(Message)

Dummy == [r |-> "", ar |-> "", q |-> <<>>, out |-> "", sigs |-> <<>>]
Do(s, c) == Step(s, c @@ [o |-> Dummy])
\* the calls of a history, applied one after the other
Apply(s, cs) == FoldLeft(LAMBDA a, c : LET x == Do(a.st, c) IN [st |-> x.st, h |-> Append(a.h, [e |-> c, x |-> x.exp])], [st |-> s, h |-> <<>>], cs)
ValC   == [c |-> "val", v |-> "v", type |-> "dkim", data |-> MsgHex]
TableC(a) == [c |-> "table", t |-> TableOf[a]]
Go(cs) == LET r == Apply(st, cs) IN st' = r.st /\ hist' = hist \o r.h /\ n' = n + 1

Opened == [a \in Says |-> TLCEval(Apply(ApiInit, <<TableC(a), ValC>>))]
Init == /\ ans \in Says /\ late = FALSE /\ has = 0 /\ key = [a |-> "", k |-> 0] /\ n = 0
        /\ st = Opened[ans].st /\ hist = Opened[ans].h
GetSig(k)  == /\ Go((IF has = 0 /\ n = 0 THEN <<>> ELSE <<[c |-> "sigreset", s |-> "s"]>>) \o <<[c |-> "getsig", v |-> "v", k |-> k, s |-> "s"]>>)
              /\ has' = (IF SigObj(st', "s").kind = "parsed" THEN k ELSE 0) /\ key' = key /\ UNCHANGED <<ans, late>>
HashAgain == has # 0 /\ Go(<<[c |-> "bodyhash", v |-> "v", s |-> "s"]>>) /\ UNCHANGED <<ans, late, has, key>>
GetKey     == has # 0 /\ Go(<<[c |-> "keyreset", p |-> "p"], [c |-> "getkey", v |-> "v", s |-> "s", p |-> "p"]>>)
              /\ key' = (IF st'.keys["p"].kind = "parsed" THEN [a |-> ans, k |-> has] ELSE [a |-> "", k |-> 0]) /\ UNCHANGED <<ans, late, has>>
CheckC     == has # 0 /\ key.k # 0 /\ Go(<<[c |-> "check", v |-> "v", k |-> has, s |-> "s", p |-> "p"]>>) /\ UNCHANGED <<ans, late, has, key>>
Turn       == \E a \in Says : a # ans /\ ans' = a /\ Go(<<TableC(a)>>) /\ UNCHANGED <<late, has, key>>
Pass       == ~late /\ late' = TRUE /\ Go(<<[c |-> "now", d |-> "1700000100"]>>) /\ UNCHANGED <<ans, has, key>>
Errno      == Go(<<[c |-> "errno", d |-> 34]>>) /\ UNCHANGED <<ans, late, has, key>>
Ambient    == \E a \in Ambients : Go(<<[c |-> "ambient", w |-> a]>>) /\ UNCHANGED <<ans, late, has, key>>
Again      == Go(<<ValC>>) /\ UNCHANGED <<ans, late, has, key>>
Next == /\ n < MaxCalls
        /\ \/ \E k \in 1..(Len(List) + 1) : GetSig(k)
           \/ GetKey \/ CheckC
           \/ "bodyhash" \in Ops /\ HashAgain
           \/ "turn" \in Ops /\ Turn
           \/ "pass" \in Ops /\ Pass
           \/ "errno" \in Ops /\ Errno
           \/ "ambient" \in Ops /\ Ambient
           \/ "again" \in Ops /\ Again
Spec == Init /\ [][Next]_vars

\* ---- C13: the same call in a session of its own
Alone(cs) == LET r == Apply(Opened[ans].st, (IF late THEN <<[c |-> "now", d |-> "1700000100"]>> ELSE <<>>) \o cs) IN r.h[Len(r.h)].x
Freed == [k \in 1..(Len(List) + 1) |-> <<[c |-> "getsig", v |-> "v", k |-> k, s |-> "s"]>>]
Final == hist[Len(hist)]
HistoryFree ==
  CASE Final.e.c = "getsig" -> Final.x = Alone(Freed[Final.e.k])
    [] Final.e.c = "getkey" -> Final.x = Alone(<<[c |-> "now", d |-> "1700000000"]>> \o Freed[has] \o <<[c |-> "getkey", v |-> "v", s |-> "s", p |-> "p"]>>)
    [] OTHER -> TRUE
\* ---- C10: the causes
Kind(k) == List[k]
Cause ==    \* what the outcome of the last call must be, told from the kinds alone
  CASE Final.e.c = "getsig" ->
         (IF Final.e.k > Len(List) THEN "noobj" ELSE IF Kind(Final.e.k) = 5 THEN "permerror" ELSE IF Kind(Final.e.k) = 2 /\ late THEN "permerror"
          ELSE IF Kind(Final.e.k) = 3 THEN "fail" ELSE "")
    [] Final.e.c = "bodyhash" -> IF Kind(has) = 3 THEN "fail" ELSE ""
    [] Final.e.c = "getkey" -> IF ans = "fail" THEN "temperror" ELSE IF ans \in {"empty", "garbage", "revoked", "v2", "short"} THEN "permerror" ELSE ""
    [] Final.e.c = "check" -> LET held == KidHeld(Spec1(List[key.k]).kid, key.a) mine == Spec1(List[has]).kid IN
                             IF KeyType[held] # KeyType[mine] \/ (key.a = "sha256" /\ Kind(has) = 4) \/ (key.a = "sha1" /\ Kind(has) # 4) \/ (key.a = "strict" /\ Kind(has) = 4) THEN "permerror"
                             ELSE IF held # mine \/ Kind(has) = 7 THEN "fail" ELSE ""
    [] OTHER -> "none"
Classified == Cause = "none" \/ (IF Cause = "noobj" THEN Final.x.r = "noobj" ELSE Final.x.ar = Cause /\ Final.x.r = (CASE Cause = "" -> "ok" [] Cause = "temperror" -> "temp" [] OTHER -> "perm"))
TempOnlyDns == Final.e.c = "getkey" /\ Final.x.r = "temp" <=> Final.e.c = "getkey" /\ ans = "fail"
Asked == Final.e.c = "getkey" => Final.x.q = <<ToHex(Query(has))>>
Shown(x) == IF "sigs" \in DOMAIN x THEN [r |-> x.r] ELSE IF "r" \in DOMAIN x THEN x ELSE [kind |-> "none"]
Short(e) == IF e.c = "val" THEN [c |-> "val"] ELSE IF e.c = "table" THEN [c |-> "table", a |-> CHOOSE a \in Says : TableOf[a] = e.t] ELSE e
Told == <<[k \in 1..Len(hist) |-> Short(hist[k].e)], n>>
Generate ==
  IF ~EmitOn THEN TRUE
  ELSE IF n = 0 THEN Emit([msg |-> MsgHex, a |-> ans, t |-> TableOf[ans]])
  ELSE IF n = MaxCalls /\ Final.e.c \in {"getsig", "bodyhash", "getkey", "check"}
  THEN Emit([h |-> [k \in 1..Len(hist) |-> [e |-> Short(hist[k].e), x |-> Shown(hist[k].x)]] \o <<>>]) ELSE TRUE
=============================================================================
