----------------------------- MODULE CanonBody ------------------------------
(* Body canonicalization, RFC 6376 3.4.3 / 3.4.4 with the library's reading  *)
(* of line ends: CR octets carry no meaning, LF ends a line.                 *)
(*   - BodyStep/BodyEnd: the streaming canonicalizer, one octet at a time    *)
(*     (the implementation's state: pending WSP, pending line ends).         *)
(*   - BodyCanonDecl: the declarative definition, by lines.                  *)
(* MC_CanonBody checks that they agree.                                      *)
EXTENDS Text

BodyInit == [wsp |-> FALSE, nl |-> 0, out |-> <<>>]

RECURSIVE Crlfs(_)
Crlfs(n) == IF n = 0 THEN <<>> ELSE CRLF \o Crlfs(n - 1)

BodyStep(mode, st, c) ==
  CASE c = CR -> st
    [] c = LF -> [st EXCEPT !.wsp = FALSE, !.nl = @ + 1]
    [] mode = "relaxed" /\ IsWsp(c) -> [st EXCEPT !.wsp = TRUE]
    [] OTHER -> [wsp |-> FALSE, nl |-> 0,
                 out |-> IF st.nl = 0 /\ ~st.wsp THEN Append(st.out, c)
                         ELSE Append(st.out \o Crlfs(st.nl) \o (IF st.wsp THEN <<SP>> ELSE <<>>), c)]

BodyEnd(mode, st) == IF st.out = <<>> /\ mode = "relaxed" THEN <<>> ELSE st.out \o CRLF

BodyCanon(mode, body) ==
  BodyEnd(mode, FoldLeft(LAMBDA a, c : BodyStep(mode, a, c), BodyInit, body))

\* l: [set, n]; what is delivered with the limit, and whether the limit fits
BodyLimited(full, l) == IF l.set /\ l.n < Len(full) THEN SubSeq(full, 1, l.n) ELSE full
LimitFits(full, l)   == ~l.set \/ l.n <= Len(full)

(* ---- declarative definition ---- *)
RECURSIVE LinesOf(_)
LinesOf(s) == IF s = <<>> THEN <<>>
              ELSE LET e == Find(s, LF, 1) IN
                   IF e = 0 THEN <<s>>
                   ELSE <<SubSeq(s, 1, e - 1)>> \o LinesOf(SubSeq(s, e + 1, Len(s)))
NoCr(s) == SelectSeq(s, LAMBDA c : c # CR)
RECURSIVE Collapse(_)
Collapse(s) == IF s = <<>> THEN <<>>
               ELSE IF IsWsp(s[1])
                    THEN <<SP>> \o Collapse(SubSeq(s, SkipWsp(s, 1), Len(s)))
                    ELSE <<s[1]>> \o Collapse(Tail(s))
RelaxLine(s) == Collapse(SubSeq(s, 1, BackWsp(s, Len(s))))
RECURSIVE DropEmptyTail(_)
DropEmptyTail(ls) == IF ls # <<>> /\ ls[Len(ls)] = <<>>
                     THEN DropEmptyTail(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls
BodyCanonDecl(mode, body) ==
  LET ls  == LinesOf(NoCr(body))
      l2  == IF mode = "relaxed" THEN [i \in 1..Len(ls) |-> RelaxLine(ls[i])] ELSE ls
      l3  == DropEmptyTail(l2)
  IN IF l3 = <<>> THEN (IF mode = "relaxed" THEN <<>> ELSE CRLF)
     ELSE FoldLeft(LAMBDA a, x : a \o x \o CRLF, <<>>, l3)

(* ---- position-local definition: what each octet contributes ----          *)
(* (used on recorded traces, whose bodies are long)                          *)
BodyLocal(mode, body) ==
  LET t == NoCr(body)
      solid(c) == c # LF /\ (mode = "relaxed" => ~IsWsp(c))
      e == IF t = <<>> THEN 0 ELSE SelectLastInSubSeq(t, 1, Len(t), LAMBDA c : solid(c))
      piece(i) == IF t[i] = LF THEN CRLF
                  ELSE IF mode = "relaxed" /\ IsWsp(t[i])
                       THEN IF t[i + 1] = LF \/ IsWsp(t[i + 1]) THEN <<>> ELSE <<SP>>
                  ELSE <<t[i]>>
  IN IF e = 0 THEN (IF mode = "relaxed" THEN <<>> ELSE CRLF)
     ELSE Flat([i \in 1..e |-> piece(i)]) \o CRLF
=============================================================================
