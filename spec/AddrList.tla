------------------------------ MODULE AddrList ------------------------------
(* The address list tokenizer and list builder as automata.                  *)
EXTENDS Lexis

Tok(t, v, i) == [t |-> t, v |-> v, i |-> i]
TokErr == [t |-> "error", v |-> <<>>, i |-> 0]

RECURSIVE QuotedEnd(_, _, _)    \* after the opening quote
QuotedEnd(s, i, v) ==
  IF i > Len(s) THEN TokErr
  ELSE IF s[i] = 92 THEN IF i + 1 > Len(s) THEN TokErr ELSE QuotedEnd(s, i + 2, Append(v, s[i + 1]))
  ELSE IF s[i] = 34 THEN Tok("quoted", v, i + 1)
  ELSE QuotedEnd(s, i + 1, Append(v, s[i]))
RECURSIVE CommentEnd(_, _, _, _) \* after an opening parenthesis
CommentEnd(s, i, v, depth) ==
  IF i > Len(s) THEN TokErr
  ELSE IF s[i] = 92
       THEN IF i + 1 > Len(s) THEN TokErr ELSE CommentEnd(s, i + 2, Append(v, s[i + 1]), depth)
  ELSE IF s[i] = 40 THEN CommentEnd(s, i + 1, Append(v, s[i]), depth + 1)
  ELSE IF s[i] = 41 THEN IF depth = 1 THEN Tok("comment", v, i + 1)
                         ELSE CommentEnd(s, i + 1, Append(v, s[i]), depth - 1)
  ELSE CommentEnd(s, i + 1, Append(v, s[i]), depth)

RECURSIVE NextTok(_, _, _)
NextTok(s, i, v) ==
  LET fin(j) == IF v = <<>> THEN Tok("eof", <<>>, j) ELSE Tok("atom", v, j) IN
  IF i > Len(s) THEN fin(i)
  ELSE LET f == Fws(s, i) IN
    IF f.err THEN TokErr
    ELSE IF f.n > 0 THEN (IF v # <<>> THEN Tok("atom", v, i + f.n) ELSE NextTok(s, i + f.n, v))
    ELSE LET c == s[i] IN
      IF c \in {34, 40, 60, 62, 44, 59} /\ v # <<>> THEN Tok("atom", v, i)
      ELSE CASE c = 34 -> QuotedEnd(s, i + 1, <<>>)
             [] c = 40 -> CommentEnd(s, i + 1, <<>>, 1)
             [] c = 60 -> Tok("open", <<>>, i + 1)
             [] c = 62 -> Tok("close", <<>>, i + 1)
             [] c \in {44, 59} -> Tok("sep", <<>>, i + 1)
             [] OTHER -> NextTok(s, i + 1, Append(v, c))

HasAt(v) == \E k \in 1..Len(v) : v[k] = 64
RECURSIVE AddrRun(_, _, _, _, _, _)
ParseAddr(s) == AddrRun(s, 1, <<>>, FALSE, "sep", <<>>)
\* toks: pending tokens; open: inside <>; last: type of the previous token; out: addresses
AddrRun(s, i, toks, open, last, out) ==
  LET k == NextTok(s, i, <<>>) IN
  IF k.t = "error" \/ (\E j \in 1..Len(k.v) : k.v[j] = 0) THEN Bad
  ELSE CASE k.t \in {"quoted", "atom"} -> AddrRun(s, k.i, Append(toks, k.v), open, k.t, out)
         [] k.t = "comment" -> AddrRun(s, k.i, toks, open, k.t, out)
         [] k.t = "open" -> AddrRun(s, k.i, <<>>, TRUE, k.t, out)
         [] OTHER ->
              LET op == open /\ k.t # "close"
                  drop == k.t = "sep" /\ last # "close" /\ ~HasAt(toks[Len(toks)])
                  sub == IF last = "quoted" /\ Len(toks) = 1 THEN ParseAddr(toks[1])
                         ELSE Ok(<<Flat(toks)>>)
                  add == IF toks = <<>> THEN Ok(<<>>) ELSE IF drop THEN Ok(<<>>) ELSE sub
              IN IF op \/ ~add.ok THEN Bad
                 ELSE IF k.t = "eof" THEN Ok(out \o add.v)
                 ELSE AddrRun(s, k.i, <<>>, FALSE, k.t, out \o add.v)
=============================================================================
