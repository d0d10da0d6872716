------------------------------ MODULE MC_Keys -------------------------------
(* Private keys handed to the main and to an additional signature, in every  *)
(* form and many a wrong one, with the algorithm changed in between.  `held` *)
(* keeps, per signature and type, the key last taken; a refused one leaves   *)
(* it as it is.  Signing then works exactly when each signature holds a key  *)
(* of its algorithm that is large enough, and every signature is of that key.*)
EXTENDS Options, Json
CONSTANTS MaxCalls, EmitOn
VARIABLES opt, held, calls, res
vars == <<opt, held, calls, res>>
\* key, form, the algorithm under which it is taken ("": under none)
Loads2 == << <<"rsa_a", "pem", "rsa">>, <<"rsa_b", "pem8", "rsa">>, <<"rsa_e", "der", "rsa">>, <<"rsa_u", "der", "rsa">>, <<"rsa_b", "cutpem", "">>, <<"rsa_a", "cutder", "">>, <<"ec", "ecpem", "">>, <<"ed_a", "edpem", "">>,
             <<"ed_a", "seed", "ed25519">>, <<"ed_n", "sk", "ed25519">>, <<"ed_p", "seed", "ed25519">>, <<"ed_m", "seed", "ed25519">>, <<"ed_n", "b64seed", "ed25519">>, <<"ed_b", "b64sk", "ed25519">>,
             <<"ed_b", "short", "">>, <<"ed_a", "b64long", "">>, <<"ed_b", "mixsk", "">>, <<"ed_a", "edder", "">>, <<"none", "empty", "">> >>
Call(f, i) == [c |-> "opt", n |-> "o", f |-> f, i |-> i]
NoKey == [alg |-> "rsa", rsa |-> "", ed25519 |-> ""]
Init == /\ opt = [NewOptions EXCEPT !.sigs = <<NewSig, NewSig>>] /\ held = <<NoKey, NoKey>> /\ calls = <<>> /\ res = <<>>
Do(e) == /\ opt' = OptSet(opt, e).opt /\ calls' = Append(calls, e) /\ res' = Append(res, OptSet(opt, e).r)
Alg(i, a) == a # held[i].alg /\ Do(Call("alg", i) @@ [a |-> a]) /\ held' = [held EXCEPT ![i].alg = a]
Load(i, k) == LET l == Loads2[k] IN
  /\ Do(Call("key", i) @@ [kid |-> l[1], form |-> l[2]])
  /\ held' = IF l[3] # held[i].alg THEN held ELSE IF l[3] = "rsa" THEN [held EXCEPT ![i].rsa = l[1]] ELSE [held EXCEPT ![i].ed25519 = l[1]]
Own(i, kid) == Do(Call("rsakey", i) @@ [kid |-> kid]) /\ held' = [held EXCEPT ![i].rsa = kid]
Next == Len(calls) < MaxCalls /\ \E i \in 1..2 : \/ \E a \in {"rsa", "ed25519"} : Alg(i, a)
                                                  \/ \E k \in 1..Len(Loads2) : Load(i, k)
                                                  \/ \E kid \in {"rsa_a", ""} : Own(i, kid)
Spec == Init /\ [][Next]_vars
Used(i) == IF held[i].alg = "rsa" THEN held[i].rsa ELSE held[i].ed25519
\* the options hold what was taken, call by call
Holding == \A i \in 1..2 : opt.sigs[i].alg = held[i].alg /\ opt.sigs[i].rsa = held[i].rsa /\ opt.sigs[i].ed = held[i].ed25519 /\ KidOf(opt.sigs[i]) = Used(i)
M == ParseMail(B("From: a") \o CRLF \o CRLF \o B("body"))
Fails == MustFail(M.hdrs, B("body"), opt) = (\E i \in 1..2 : Used(i) \in {"", "rsa_u"})
\* only a load of the right type changes what is held, and only for its own signature
Contained == [][\A i \in 1..2 : (held'[i] # held[i]) => Last(calls').i = i]_vars
Generate == IF ~EmitOn THEN TRUE ELSE Emit([ev |-> calls, r |-> res, kids |-> <<Used(1), Used(2)>>, fail |-> MustFail(M.hdrs, B("body"), opt)])
=============================================================================
