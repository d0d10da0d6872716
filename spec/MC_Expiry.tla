------------------------------ MODULE MC_Expiry -----------------------------
(* Clocks and expiries.                                                      *)
(* Side "given": a signature stating x= and t= in some wording is looked at  *)
(* again and again while the clock moves either way; whether it has expired  *)
(* is told by the places of the two times in an ascending list.              *)
(* Side "made": a signer configured with a time and an expiry signs at some  *)
(* clock; what t= and x= must say is told by a table of sums.                *)
EXTENDS Ideal, Options, Json
CONSTANTS Side, MaxLooks, EmitOn
VARIABLES conf, seen
vars == <<conf, seen>>
Times == << "0", "1", "999999999", "1699999999", "1700000000", "1700000001", "2147483647", "2147483648", "4294967295", "4294967296", "253402300799" >>
Later == << "9223372036854775806", "9223372036854775807", "9223372036854775808", "99999999999999999999999999" >>
All == Times \o Later
ASSUME \A i \in 1..(Len(All) - 1) : NumLess(B(All[i]), B(All[i + 1]))
\* ---- given
Pads == {"", "0", "000000000000"}
TSay == {"", "t=0; ", "t=1700000000; ", "t=4294967296; ", "t=253402300799; "}
Given == [x : 0..Len(All), pad : Pads, t : TSay, arc : {0, 1}]
GivenUsed == {g \in Given : (g.x = 0 => g.pad = "") /\ (g.pad # "" => g.arc = 0 /\ g.t = "") /\ (g.arc = 1 => g.t \in {"", "t=4294967296; "})}
\* ---- made
Delays == << "0", "1", "86400", "4294967296" >>
NoT == [set |-> FALSE, k |-> 0]
Made == [ts : {[set |-> FALSE, k |-> 0]} \cup [set : {TRUE}, k : 0..Len(Times)], ex : {[k |-> 0, abs |-> TRUE]} \cup [k : 1..Len(All), abs : {TRUE}] \cup [k : 1..Len(Delays), abs : {FALSE}], clock : 1..Len(Times)]
MadeUsed == {m \in Made : ~(m.ex.abs /\ m.ex.k > Len(Times) + 2)}
Init == seen = <<>> /\ (IF Side = "given" THEN conf \in GivenUsed ELSE conf \in MadeUsed)
Look(c) == Side = "given" /\ Len(seen) < MaxLooks /\ seen' = Append(seen, c) /\ UNCHANGED conf
Next == \E c \in 1..Len(Times) : Look(c)
Spec == Init /\ [][Next]_vars

Below == B("From: a") \o CRLF \o CRLF \o B("body") \o CRLF
FieldAt == TLCEval([g \in GivenUsed |->
   IdealField(Below, [Plain EXCEPT !.arc = g.arc, !.kid = "ed_a", !.extra = g.t \o (IF g.x = 0 THEN "" ELSE "x=" \o g.pad \o All[g.x] \o ";")])])
Live(c) == conf.x = 0 \/ conf.x >= c
Admitted == TLCEval([g \in GivenUsed |-> LET h == TLCEval(ParseMail(FieldAt[g] \o CRLF \o Below).hdrs[1]) IN TLCEval([c \in 1..Len(Times) |-> ParseSig(h.text, h.voff, LName(h), B(Times[c])).ok])])
\* refused exactly when the clock has passed it, every time it is looked at, whatever t= says
Judges == Side = "given" => \A k \in 1..Len(seen) : Admitted[conf][seen[k]] = Live(seen[k])

\* sums, digit by digit from the right, told another way than Plus: by counting where TLC's numbers reach, by hand beyond
Sum == [i \in 1..Len(Times) |-> [j \in 1..Len(Delays) |-> Plus(B(Times[i]), B(Delays[j]))]]
Small(s) == NumLess(B(s), B("1000000000"))
ASSUME \A i \in 1..Len(Times), j \in 1..Len(Delays) : (Small(Times[i]) /\ Small(Delays[j])) => Sum[i][j] = Decimal(SmallNum(B(Times[i])) + SmallNum(B(Delays[j])))
ASSUME /\ Plus(B("1700000000"), B("86400")) = B("1700086400") /\ Plus(B("4294967295"), B("1")) = B("4294967296") /\ Plus(B("4294967295"), B("4294967296")) = B("8589934591")
       /\ Plus(B("253402300799"), B("1")) = B("253402300800") /\ Plus(B("2147483647"), B("86400")) = B("2147570047") /\ Plus(B("1699999999"), B("1")) = B("1700000000")
O == [NewOptions EXCEPT !.ts = [set |-> conf.ts.set, now |-> conf.ts.k = 0, d |-> IF conf.ts.k = 0 THEN <<48>> ELSE B(Times[conf.ts.k])],
                        !.ex = [set |-> conf.ex.k > 0, abs |-> conf.ex.abs, d |-> IF conf.ex.k = 0 THEN <<48>> ELSE B(IF conf.ex.abs THEN All[conf.ex.k] ELSE Delays[conf.ex.k])]]
Clock == B(Times[conf.clock])
WantT == IF ~conf.ts.set THEN "" ELSE IF conf.ts.k = 0 THEN Times[conf.clock] ELSE Times[conf.ts.k]
From == IF conf.ts.set /\ conf.ts.k > 0 THEN conf.ts.k ELSE conf.clock
WantX == IF conf.ex.k = 0 THEN <<>> ELSE IF conf.ex.abs THEN B(All[conf.ex.k]) ELSE Sum[From][conf.ex.k]
States == Side = "made" => (conf.ts.set => StatedT(O, Clock) = B(WantT)) /\ (conf.ex.k > 0 => StatedX(O, Clock) = WantX)
Generate == IF ~EmitOn THEN TRUE
  ELSE IF Side = "made" THEN Emit([clock |-> Times[conf.clock], tset |-> conf.ts.set, tnow |-> conf.ts.k = 0, t |-> WantT, xset |-> conf.ex.k > 0, abs |-> conf.ex.abs,
                                   d |-> IF conf.ex.k = 0 THEN "" ELSE IF conf.ex.abs THEN All[conf.ex.k] ELSE Delays[conf.ex.k], x |-> ToHex(WantX)])
  ELSE IF Len(seen) < MaxLooks THEN TRUE
  ELSE Emit([data |-> ToHex(FieldAt[conf] \o CRLF \o Below), arc |-> conf.arc, clocks |-> [k \in 1..Len(seen) |-> Times[seen[k]]], live |-> [k \in 1..Len(seen) |-> Live(seen[k])]])
=============================================================================
