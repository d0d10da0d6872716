------------------------------ MODULE TagSpec -------------------------------
(* Tag lists, RFC 6376 3.2: name=value *( ; name=value ) [ ; ].              *)
(* A parsed tag is [n, v, off, lo, hi]: v without surrounding white space,   *)
(* off the 0-based offset of v, lo..hi (1-based) the raw text between "="    *)
(* and ";" of which v is the trimmed part.                                   *)
EXTENDS Text

IsNameC(c) == IsAlnum(c) \/ c = 95
IsValC(c)  == c >= 33 /\ c <= 126 /\ c # 59

NameEnd(s, i) == IF i > Len(s) THEN i
                 ELSE LET k == SelectInSubSeq(s, i, Len(s), LAMBDA x : ~IsNameC(x)) IN IF k = 0 THEN Len(s) + 1 ELSE k
\* end of the raw value starting at i: position of ";" or Len+1; 0 if a bad octet is met
RawEnd(s, i) == IF i > Len(s) THEN i
                ELSE LET k == SelectInSubSeq(s, i, Len(s), LAMBDA x : ~(IsValC(x) \/ IsLoose(x))) IN
                     IF k = 0 THEN Len(s) + 1 ELSE IF s[k] = 59 THEN k ELSE 0

\* one more tag read: state [at (0: finished), ok, v]
TagStep(s, st) ==
  IF st.at = 0 THEN st
  ELSE LET a == SkipLoose(s, st.at) IN
  IF a > Len(s) THEN [st EXCEPT !.at = 0]
  ELSE LET no == [at |-> 0, ok |-> FALSE, v |-> <<>>]
           b  == NameEnd(s, a)
           nm == SubSeq(s, a, b - 1)
           c  == SkipLoose(s, b)
       IN IF nm = <<>> \/ (\E t \in 1..Len(st.v) : st.v[t].n = nm) THEN no
          ELSE IF c > Len(s) \/ s[c] # 61 THEN no
          ELSE LET e == RawEnd(s, c + 1) IN
               IF e = 0 THEN no
               ELSE LET x == SkipLoose(s, c + 1)
                        y == BackLoose(s, e - 1)
                        t == [n |-> nm, v |-> SubSeq(s, x, y), off |-> x - 1, lo |-> c + 1, hi |-> e - 1]
                    IN [at |-> e + 1, ok |-> TRUE, v |-> Append(st.v, t)]
\* as many tags as there are semicolons, and one
ParseTags(s) ==
  LET r == FoldLeft(LAMBDA st, x : IF x = 59 THEN TagStep(s, st) ELSE st, [at |-> 1, ok |-> TRUE, v |-> <<>>], Append(s, 59))
  IN IF r.ok THEN Ok(r.v) ELSE Bad

HasTag(tags, name) == \E i \in 1..Len(tags) : tags[i].n = B(name)
Tag(tags, name)    == tags[CHOOSE i \in 1..Len(tags) : tags[i].n = B(name)]
Val(tags, name)    == Tag(tags, name).v
TagNames(tags)     == {tags[i].n : i \in 1..Len(tags)}

(* Declarative: cut at every ";", each piece (the last may be blank) is      *)
(* blank* name blank* "=" anything-allowed.                                  *)
RECURSIVE Cut(_)
Cut(s) == LET e == Find(s, 59, 1) IN
          IF e = 0 THEN <<s>> ELSE <<SubSeq(s, 1, e - 1)>> \o Cut(SubSeq(s, e + 1, Len(s)))
TrimLoose(s) == SubSeq(s, SkipLoose(s, 1), BackLoose(s, Len(s)))
PieceOk(p) == LET q == Find(p, 61, 1) n == TrimLoose(SubSeq(p, 1, q - 1)) IN
              /\ q > 0
              /\ n # <<>> /\ \A i \in 1..Len(n) : IsNameC(n[i])
              /\ \A i \in 1..Len(p) : IsValC(p[i]) \/ IsLoose(p[i])
PieceTag(p) == LET q == Find(p, 61, 1) IN
               [n |-> TrimLoose(SubSeq(p, 1, q - 1)), v |-> TrimLoose(SubSeq(p, q + 1, Len(p)))]
TagsDecl(s) ==
  LET ps == Cut(s)
      last == TrimLoose(ps[Len(ps)]) = <<>>
      qs == IF last THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps
      ts == [i \in 1..Len(qs) |-> PieceTag(qs[i])]
  IN IF \E i \in 1..Len(qs) : ~PieceOk(qs[i]) THEN Bad
     ELSE IF \E i, j \in 1..Len(qs) : i < j /\ ts[i].n = ts[j].n THEN Bad
     ELSE Ok(ts)
=============================================================================
