------------------------------- MODULE Lexis --------------------------------
(* Folding white space and colon lists (the tokenizer's lexical level).      *)
EXTENDS Text

(* Reading folding white space at i: WSP* [CRLF WSP+].                       *)
(* Result: err = a CR not followed by LF was met; else n octets consumed.    *)
Fws(s, i) ==
  LET j == SkipWsp(s, i) IN
  IF j > Len(s) \/ s[j] # CR THEN [err |-> FALSE, n |-> j - i]
  ELSE IF j + 1 > Len(s) \/ s[j + 1] # LF THEN [err |-> TRUE, n |-> 0]
  ELSE IF j + 2 > Len(s) \/ ~IsWsp(s[j + 2]) THEN [err |-> FALSE, n |-> 0]  \* not a fold: left unread
  ELSE [err |-> FALSE, n |-> SkipWsp(s, j + 2) - i]

\* skip any number of FWS: [err, i]
RECURSIVE SkipFws(_, _)
SkipFws(s, i) == LET f == Fws(s, i) IN
                 IF f.err THEN [err |-> TRUE, i |-> i]
                 ELSE IF f.n = 0 THEN [err |-> FALSE, i |-> i]
                 ELSE SkipFws(s, i + f.n)

\* one read of each kind: [err, n]
ReadWs(kind, s, i) ==
  LET none == [err |-> FALSE, n |-> 0] IN
  CASE kind = "crlf" -> IF i > Len(s) \/ s[i] # CR THEN none
                        ELSE IF i + 1 > Len(s) \/ s[i + 1] # LF THEN [err |-> TRUE, n |-> 0]
                        ELSE [err |-> FALSE, n |-> 2]
    [] kind = "wsp"   -> IF i <= Len(s) /\ IsWsp(s[i]) THEN [err |-> FALSE, n |-> 1] ELSE none
    [] kind = "loose" -> IF i <= Len(s) /\ IsLoose(s[i]) THEN [err |-> FALSE, n |-> 1] ELSE none
    [] kind = "fws"   -> Fws(s, i)

(* colon list: [ok, v = sequence of values] *)
\* one element from i: scans octets and FWS up to ':' or the end
RECURSIVE ListElem(_, _, _, _)
ListElem(s, i, val, ws) ==
  LET f == Fws(s, i) IN
  IF f.err THEN [err |-> TRUE, v |-> <<>>, i |-> i]
  ELSE IF f.n > 0 THEN ListElem(s, i + f.n, val, ws \o SubSeq(s, i, i + f.n - 1))
  ELSE IF i > Len(s) \/ s[i] = 58 THEN [err |-> FALSE, v |-> val, i |-> i]
  ELSE LET k == SelectInSubSeq(s, i, Len(s), LAMBDA c : c = 58 \/ (IsLoose(c) /\ c # LF))
           j == IF k = 0 THEN Len(s) + 1 ELSE IF k = i THEN i + 1 ELSE k IN
       ListElem(s, j, val \o ws \o SubSeq(s, i, j - 1), <<>>)
\* one more element read: state [at (0: finished), ok, v]
ListStep(s, st) ==
  IF st.at = 0 THEN st
  ELSE LET k == SkipFws(s, st.at) IN
  IF k.err THEN [at |-> 0, ok |-> FALSE, v |-> <<>>]
  ELSE IF k.i > Len(s) THEN [st EXCEPT !.at = 0]
  ELSE LET e == ListElem(s, k.i, <<>>, <<>>) IN
       IF e.err \/ e.v = <<>> THEN [at |-> 0, ok |-> FALSE, v |-> <<>>]
       ELSE [at |-> IF e.i > Len(s) THEN 0 ELSE e.i + 1, ok |-> TRUE, v |-> Append(st.v, e.v)]
\* as many elements as there are colons, and one
ValueList(s) ==
  LET r == FoldLeft(LAMBDA st, x : IF x = 58 THEN ListStep(s, st) ELSE st, [at |-> 1, ok |-> TRUE, v |-> <<>>], Append(s, 58))
  IN IF r.ok THEN Ok(r.v) ELSE Bad

\* independent reading for inputs without CR: split at ':', trim WSP
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET e == Find(s, c, 1) IN
                 IF e = 0 THEN <<s>>
                 ELSE <<SubSeq(s, 1, e - 1)>> \o SplitAt(SubSeq(s, e + 1, Len(s)), c)
ListDecl(s) ==
  LET ps == SplitAt(s, 58)
      ts == [i \in 1..Len(ps) |-> TrimWsp(ps[i])]
      body == IF ts[Len(ts)] = <<>> THEN SubSeq(ts, 1, Len(ts) - 1) ELSE ts
  IN IF \E i \in 1..Len(body) : body[i] = <<>> THEN Bad ELSE Ok(body)
=============================================================================
