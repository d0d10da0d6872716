---------------------------- MODULE CanonHeader -----------------------------
(* Header canonicalization, RFC 6376 3.4.1 / 3.4.2, of a field as the parser *)
(* delivers it: lines joined with CRLF, each continuation starting with WSP, *)
(* no final CRLF.                                                            *)
EXTENDS Lexis

(* The filter, position by position: skip all FWS, then copy one octet,      *)
(* preceded by one SP if any FWS was skipped.                                *)
RECURSIVE Squeeze(_, _, _)
Squeeze(s, i, out) ==
  LET k == SkipFws(s, i) IN
  IF k.err THEN Bad
  ELSE IF k.i > Len(s) THEN Ok(out)
  ELSE Squeeze(s, k.i + 1, Append(IF k.i > i THEN Append(out, SP) ELSE out, s[k.i]))

HeaderCanon(mode, s) ==
  IF mode = "simple" THEN Ok(s)
  ELSE LET c == Find(s, 58, 1) IN
    IF c = 0 THEN Bad
    ELSE LET q == Squeeze(Lower(SubSeq(s, 1, c - 1)) \o SubSeq(s, c, Len(s)), 1, <<>>) IN
      IF ~q.ok THEN Bad
      ELSE LET x  == q.v
               cx == Find(x, 58, 1)
               nb == BackWsp(x, cx - 1)      \* 0: the name is blank, left alone
               nm == IF nb = 0 THEN SubSeq(x, 1, cx - 1) ELSE SubSeq(x, 1, nb)
           IN Ok(nm \o <<58>> \o SubSeq(x, SkipWsp(x, cx + 1), Len(x)))

(* Declarative: unfold, split at the first colon, trim and collapse. *)
RECURSIVE Unfold(_)
Unfold(s) == IF Len(s) < 3 THEN s
             ELSE IF s[1] = CR /\ s[2] = LF /\ IsWsp(s[3]) THEN Unfold(SubSeq(s, 3, Len(s)))
             ELSE <<s[1]>> \o Unfold(Tail(s))
RECURSIVE CollapseWsp(_)
CollapseWsp(s) == IF s = <<>> THEN <<>>
                  ELSE IF IsWsp(s[1]) THEN <<SP>> \o CollapseWsp(SubSeq(s, SkipWsp(s, 1), Len(s)))
                  ELSE <<s[1]>> \o CollapseWsp(Tail(s))
StrayCr(s) == \E i \in 1..Len(s) : s[i] = CR /\ (i = Len(s) \/ s[i + 1] # LF)
\* fields the parser can deliver (no stray line ends)
FieldShaped(s) == \A i \in 1..Len(s) :
                    s[i] = LF => i > 1 /\ s[i - 1] = CR /\ i < Len(s) /\ IsWsp(s[i + 1])
HeaderCanonDecl(s) ==
  LET c == Find(s, 58, 1) IN
  IF c = 0 \/ StrayCr(s) THEN Bad
  ELSE LET nm == Unfold(SubSeq(s, 1, c - 1))
           v  == TrimWsp(CollapseWsp(Unfold(SubSeq(s, c + 1, Len(s)))))
           n1 == CollapseWsp(nm)
           n2 == IF BackWsp(n1, Len(n1)) = 0 THEN n1 ELSE SubSeq(n1, 1, BackWsp(n1, Len(n1)))
       IN Ok(Lower(n2) \o <<58>> \o v)

(* ---- position-local definition (used on recorded traces) ---- *)
\* white space runs become one SP, none at the end
Squash(s) == Flat([i \in 1..Len(s) |->
               IF ~IsLoose(s[i]) THEN <<s[i]>>
               ELSE IF i < Len(s) /\ ~IsLoose(s[i + 1]) THEN <<SP>> ELSE <<>>])
HeaderLocal(mode, s) ==
  IF mode = "simple" THEN Ok(s)
  ELSE LET c == Find(s, 58, 1) IN
       IF c = 0 \/ StrayCr(s) THEN Bad
       ELSE LET n == Squash(SubSeq(s, 1, c - 1))
                v == Squash(SubSeq(s, c + 1, Len(s)))
            IN Ok((IF c > 1 /\ n = <<>> THEN <<SP>> ELSE Lower(n)) \o <<58>>
                  \o SubSeq(v, SkipWsp(v, 1), Len(v)))
=============================================================================
