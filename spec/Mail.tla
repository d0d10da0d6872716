-------------------------------- MODULE Mail --------------------------------
(* The message parser: a line-wise automaton over the octet stream.          *)
EXTENDS Text

NoHdr == [text |-> <<>>, voff |-> 0, name |-> <<>>]
\* add one line (without its terminator) to the field being accumulated
HdrLine(h, line) ==
  LET t == IF h.text = <<>> THEN line ELSE h.text \o CRLF \o line
      c == IF h.voff = 0 THEN Find(t, 58, 1) ELSE h.voff
  IN [text |-> t, voff |-> c,
      name |-> IF h.voff # 0 THEN h.name ELSE IF c = 0 THEN <<>> ELSE TrimWsp(SubSeq(t, 1, c - 1))]

\* pos: next octet to read (1-based); body: 0-based offset of the body, -1 if none
MailInit == [hdrs |-> <<>>, has |-> FALSE, cur |-> NoHdr, done |-> FALSE, body |-> -1, pos |-> 1]

Flush(p) == IF p.has THEN Append(p.hdrs, p.cur) ELSE p.hdrs
MailStep(m, p) ==
  IF p.pos > Len(m)
  THEN [p EXCEPT !.hdrs = Flush(p), !.has = FALSE, !.done = TRUE]
  ELSE LET e    == Find(m, LF, p.pos)
           last == IF e = 0 THEN Len(m) ELSE e - 1
           raw  == SubSeq(m, p.pos, last)
           line == IF raw # <<>> /\ raw[Len(raw)] = CR THEN SubSeq(raw, 1, Len(raw) - 1) ELSE raw
           nxt  == last + (IF e = 0 THEN 1 ELSE 2)
       IN IF line = <<>>
          THEN [p EXCEPT !.hdrs = Flush(p), !.has = FALSE, !.done = TRUE, !.pos = nxt,
                         !.body = IF e = 0 THEN -1 ELSE e]
          ELSE IF IsWsp(line[1])
          THEN [p EXCEPT !.has = TRUE, !.pos = nxt,
                         !.cur = HdrLine(IF p.has THEN p.cur ELSE NoHdr, line)]
          ELSE [p EXCEPT !.hdrs = Flush(p), !.has = TRUE, !.pos = nxt, !.cur = HdrLine(NoHdr, line)]
RECURSIVE MailRun(_, _)
MailRun(m, p) == IF p.done THEN p ELSE MailRun(m, MailStep(m, p))
ParseMail(m) == MailRun(m, MailInit)
BodyOf(m, p) == IF p.body = -1 THEN <<>> ELSE SubSeq(m, p.body + 1, Len(m))

(* Declarative: the header block is everything before the first empty line;  *)
(* fields are maximal groups of a line and the WSP-led lines after it.       *)
RECURSIVE RawLines(_)
RawLines(s) == IF s = <<>> THEN <<>>
               ELSE LET e == Find(s, LF, 1) IN
                    IF e = 0 THEN <<s>> ELSE <<SubSeq(s, 1, e)>> \o RawLines(SubSeq(s, e + 1, Len(s)))
Chop(l) == LET a == IF l # <<>> /\ l[Len(l)] = LF THEN SubSeq(l, 1, Len(l) - 1) ELSE l
           IN IF a # <<>> /\ a[Len(a)] = CR THEN SubSeq(a, 1, Len(a) - 1) ELSE a
FieldsDecl(m) ==
  LET ls == RawLines(m)
      ch == [i \in 1..Len(ls) |-> Chop(ls[i])]
      blank == {i \in 1..Len(ls) : ch[i] = <<>>}
      n  == IF blank = {} THEN Len(ls) ELSE (CHOOSE i \in blank : \A j \in blank : i <= j) - 1
      starts == {i \in 1..n : i = 1 \/ ~IsWsp(ch[i][1])}
      upto(i) == CHOOSE j \in i..n : (j = n \/ (j + 1) \in starts) /\ \A k \in (i + 1)..j : k \notin starts
      text(i) == FoldLeft(LAMBDA a, k : IF a = <<>> THEN ch[k] ELSE a \o CRLF \o ch[k], <<>>, [k \in 1..(upto(i) - i + 1) |-> i + k - 1])
      order == SetToSortSeq(starts, LAMBDA a, b : a < b)
  IN [i \in 1..Len(order) |-> text(order[i])]
BodyDecl(m) ==   \* -1 or the offset after the first empty, terminated line
  LET ls == RawLines(m)
      blank == {i \in 1..Len(ls) : Chop(ls[i]) = <<>>}
  IN IF blank = {} THEN -1
     ELSE LET b == CHOOSE i \in blank : \A j \in blank : i <= j
          IN IF ls[b][Len(ls[b])] # LF THEN -1
             ELSE FoldLeft(LAMBDA a, i : a + Len(ls[i]), 0, [i \in 1..b |-> i])
=============================================================================
