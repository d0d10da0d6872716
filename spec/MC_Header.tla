----------------------------- MODULE MC_Header ------------------------------
(* Every field over Units up to MaxLen units.  A unit is a short octet       *)
(* string (a folded line end is one unit), so that folding is dense.         *)
EXTENDS CanonHeader
CONSTANTS Units, MaxLen, EmitOn
UnitsQ == {<<65>>, <<58>>, <<32>>, <<9>>, <<13, 10, 32>>, <<13>>, <<200>>}
VARIABLES f, n
vars == <<f, n>>
Init == f = <<>> /\ n = 0
Next == \E u \in Units : n < MaxLen /\ n' = n + 1 /\ f' = f \o u
Spec == Init /\ [][Next]_vars
R == HeaderCanon("relaxed", f)
\* name and value of a canonical field
Agree      == FieldShaped(f) => (R = HeaderCanonDecl(f) /\ R = HeaderLocal("relaxed", f))
Idempotent == (R.ok /\ FieldShaped(f)) => HeaderCanon("relaxed", R.v) = R
SimpleId   == HeaderCanon("simple", f) = Ok(f)
RefusesStray == StrayCr(f) => ~R.ok
NoColon    == Find(f, 58, 1) = 0 => ~R.ok
\* a canonical field has no CR LF TAB, no double space, no space at either side of the colon or at the end
Shape == (R.ok /\ FieldShaped(f)) =>
   LET x == R.v c == Find(x, 58, 1) IN
   /\ \A i \in 1..Len(x) : x[i] \notin {CR, LF, TAB}
   /\ \A i \in 1..(Len(x) - 1) : ~(x[i] = SP /\ x[i + 1] = SP)
   /\ x[Len(x)] # SP
   /\ (c > 1 /\ BackWsp(x, c - 1) > 0) => x[c - 1] # SP
   /\ c < Len(x) => x[c + 1] # SP
\* tolerated transit rewrites leave the canonical form alone
Refold == (R.ok /\ FieldShaped(f)) => \A i \in 1..Len(f) :
     LET g == SubSeq(f, 1, i - 1) \o <<CR, LF, TAB, SP>> \o SubSeq(f, i + 1, Len(f))
     IN (IsWsp(f[i]) /\ FieldShaped(g)) => HeaderCanon("relaxed", g) = R
Generate == EmitOn => Emit([f |-> ToHex(f), ok |-> R.ok, r |-> IF R.ok THEN ToHex(R.v) ELSE ""])
=============================================================================
