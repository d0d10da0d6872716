------------------------------ MODULE Options -------------------------------
(* The signing options as a state machine.                                   *)
EXTENDS Signer, Dns

DefaultHeaders == << B("from"), B("sender"), B("reply-to"), B("subject"), B("date"), B("message-id"),
  B("to"), B("cc"), B("mime-version"), B("content-type"), B("content-transfer-encoding"),
  B("content-id"), B("content-description"), B("resent-date"), B("resent-from"), B("resent-sender"),
  B("resent-to"), B("resent-cc"), B("resent-message-id"), B("in-reply-to"), B("references"),
  B("list-id"), B("list-help"), B("list-unsubscribe"), B("list-unsubscribe-post"), B("list-subscribe"),
  B("list-post"), B("list-owner"), B("list-archive"), B("cfbl-address"), B("cfbl-feedback-id") >>
NewSig == [alg |-> "rsa", domain |-> <<>>, selector |-> <<>>, rsa |-> "", ed |-> ""]
NoLimit == [set |-> FALSE, d |-> <<48>>, n |-> 0]
NewOptions == [sigs |-> <<NewSig>>, digest |-> "sha256", ch |-> "simple", cb |-> "simple",
               headers |-> DefaultHeaders, oversign |-> <<>>, limit |-> NoLimit, arc |-> 0,
               ts |-> [set |-> FALSE, now |-> TRUE, d |-> <<48>>],
               ex |-> [set |-> FALSE, abs |-> TRUE, d |-> <<48>>], identity |-> <<>>]

\* encodings under which a private key can be handed over, by key type
RsaForms == {"pem", "pem8", "der"}
EdForms  == {"seed", "sk", "b64seed", "b64sk"}
TypeOfKey(kid) == IF kid \in DOMAIN KeyType THEN KeyType[kid] ELSE "other"
Loads(alg, kid, form) == IF alg = "rsa" THEN TypeOfKey(kid) = "rsa" /\ form \in RsaForms
                         ELSE TypeOfKey(kid) = "ed25519" /\ form \in EdForms

OptRes(opt, r) == [opt |-> opt, r |-> r]
Hexes(l) == [k \in 1..Len(l) |-> Hex(l[k])] \o <<>>
DelNames(hs, names) == LET set == LowerSet(names) IN SelectSeq(hs, LAMBDA h : Lower(h) \notin set)
\* one setter call e (f: which; i: which signature, 1 = main)
OptSet(opt, e) ==
  CASE e.f = "addsig"   -> OptRes([opt EXCEPT !.sigs = Append(@, NewSig)], "ok")
    [] e.f = "alg"      -> OptRes([opt EXCEPT !.sigs[e.i].alg = e.a], "ok")
    [] e.f = "domain"   -> IF DomainOk(Hex(e.data)) THEN OptRes([opt EXCEPT !.sigs[e.i].domain = Hex(e.data)], "ok")
                           ELSE OptRes(opt, "perm")
    [] e.f = "selector" -> IF DomainOk(Hex(e.data)) THEN OptRes([opt EXCEPT !.sigs[e.i].selector = Hex(e.data)], "ok")
                           ELSE OptRes(opt, "perm")
    [] e.f = "key"      -> LET a == opt.sigs[e.i].alg IN
                           IF ~Loads(a, e.kid, e.form) THEN OptRes(opt, "perm")
                           ELSE IF a = "rsa" THEN OptRes([opt EXCEPT !.sigs[e.i].rsa = e.kid], "ok")
                           ELSE OptRes([opt EXCEPT !.sigs[e.i].ed = e.kid], "ok")
    [] e.f = "rsakey"   -> OptRes([opt EXCEPT !.sigs[e.i].rsa = e.kid], "ok")
    [] e.f = "digest"   -> OptRes([opt EXCEPT !.digest = e.a], "ok")
    [] e.f = "ch"       -> OptRes([opt EXCEPT !.ch = e.a], "ok")
    [] e.f = "cb"       -> OptRes([opt EXCEPT !.cb = e.a], "ok")
    [] e.f = "headers"  -> OptRes([opt EXCEPT !.headers = Hexes(e.l)], "ok")
    [] e.f = "addh"     -> OptRes([opt EXCEPT !.headers = @ \o Hexes(e.l)], "ok")
    [] e.f = "delh"     -> OptRes([opt EXCEPT !.headers = DelNames(@, Hexes(e.l))], "ok")
    [] e.f = "oversign" -> OptRes([opt EXCEPT !.oversign = Hexes(e.l)], "ok")
    [] e.f = "limit"    -> OptRes([opt EXCEPT !.limit = [set |-> TRUE, d |-> B(e.d), n |-> SmallNum(B(e.d))]], "ok")
    [] e.f = "arc"      -> OptRes([opt EXCEPT !.arc = SmallNum(B(e.d))], "ok")
    [] e.f = "ts"       -> OptRes([opt EXCEPT !.ts = [set |-> TRUE, now |-> e.d = "-1",
                                                     d |-> IF e.d = "-1" THEN <<48>> ELSE B(e.d)]], "ok")
    [] e.f = "ex"       -> OptRes([opt EXCEPT !.ex = [set |-> TRUE, abs |-> e.abs, d |-> B(e.d)]], "ok")
    [] e.f = "ident"    -> OptRes([opt EXCEPT !.identity = Hex(e.data)], "ok")

\* what the getters must show; hs/os are compared by the caller
OptView(opt) ==
  [sigs |-> [k \in 1..Len(opt.sigs) |->
       [alg |-> opt.sigs[k].alg, d |-> ToHex(opt.sigs[k].domain), s |-> ToHex(opt.sigs[k].selector),
        rsa |-> opt.sigs[k].rsa # "", ed |-> opt.sigs[k].ed # ""]] \o <<>>,
   digest |-> opt.digest, ch |-> opt.ch, cb |-> opt.cb,
   lset |-> opt.limit.set, arc |-> opt.arc, tset |-> opt.ts.set, xset |-> opt.ex.set,
   ident |-> ToHex(opt.identity)]
=============================================================================
