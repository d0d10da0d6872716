----------------------------- MODULE MC_Total -------------------------------
(* Every short text over the octets that mean something somewhere, given to  *)
(* every entry point: the specification is total (each call has an expected  *)
(* outcome, of a declared class) and a session survives what it is given.    *)
EXTENDS Api, Json
CONSTANTS MaxLen, EmitOn
Octets == {0, 9, 10, 13, 32, 34, 40, 41, 44, 46, 48, 58, 59, 60, 61, 62, 63, 64, 65, 92, 95, 255}
VARIABLE txt
Init == txt = <<>>
Next == Len(txt) < MaxLen /\ \E c \in Octets : txt' = Append(txt, c)
Spec == Init /\ [][Next]_txt
Declared == {"ok", "perm", "temp", "any", "txt", "fail", "open"}
NoOut == [r |-> "none", ar |-> "none"]
Plain == {"mail", "tags", "pkey", "qpenc", "b64enc", "b64dec", "ew", "vlist", "addr", "domain"}
Call(c) == [c |-> c, data |-> ToHex(txt), o |-> NoOut]
Calls == {Call(c) : c \in Plain}
  \cup {Call("canonbody") @@ [m |-> m, lset |-> l, ld |-> "1"] : m \in {"simple", "relaxed"}, l \in BOOLEAN}
  \cup {Call("canonhdr") @@ [m |-> m] : m \in {"simple", "relaxed"}}
  \cup {Call("qpdec") @@ [w |-> w] : w \in BOOLEAN}
  \cup {Call("ws") @@ [kind |-> k, at |-> 0] : k \in {"crlf", "wsp", "loose", "fws"}}
  \cup {Call("dns") @@ [herr |-> ""]}
Total == \A e \in Calls : LET x == Step(ApiInit, e) IN x.exp.r \in Declared /\ x.ok \in BOOLEAN
\* a message of these octets, its signatures, a signer of it, all on one session
DefOpt == [c |-> "optnew", n |-> "o", o |-> NoOut]
Script == << [c |-> "val", v |-> "v", type |-> "dkim", data |-> ToHex(txt), o |-> NoOut],
             [c |-> "getsig", v |-> "v", k |-> 1, s |-> "s", o |-> NoOut],
             [c |-> "signer", g |-> "g", data |-> ToHex(txt), o |-> NoOut], DefOpt,
             [c |-> "sign", g |-> "g", n |-> "o", o |-> NoOut] >>
RECURSIVE Runs(_, _)
Runs(st, l) == l = <<>> \/ LET x == Step(st, l[1]) IN x.ok \in BOOLEAN /\ Runs(x.st, Tail(l))
Survives == Runs(ApiInit, Script)
Generate == EmitOn => Emit([d |-> ToHex(txt)])
=============================================================================
