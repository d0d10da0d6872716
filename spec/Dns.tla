-------------------------------- MODULE Dns ---------------------------------
(* Reading the TXT data out of a DNS response (RFC 1035 4).                  *)
EXTENDS Text

U16(m, i) == m[i] * 256 + m[i + 1]
\* position after the (possibly compressed) name at i; 0 if it is malformed or runs out
RECURSIVE NameSkip(_, _)
NameSkip(m, i) ==
  IF i > Len(m) THEN 0
  ELSE IF m[i] = 0 THEN i + 1
  ELSE IF m[i] >= 192 THEN IF i + 1 > Len(m) THEN 0 ELSE i + 2
  ELSE IF m[i] >= 64 THEN 0
  ELSE IF i + m[i] > Len(m) THEN 0
  ELSE NameSkip(m, i + 1 + m[i])
\* character-strings of the RDATA lo..hi
RECURSIVE Strings(_, _, _, _)
Strings(m, lo, hi, out) ==
  IF lo > hi THEN Ok(out)
  ELSE IF lo + m[lo] > hi THEN Bad
  ELSE Strings(m, lo + 1 + m[lo], hi, out \o SubSeq(m, lo + 1, lo + m[lo]))
RECURSIVE Questions(_, _, _)
Questions(m, i, n) == IF n = 0 THEN i ELSE LET j == NameSkip(m, i) IN
                      IF j = 0 \/ j + 3 > Len(m) THEN 0 ELSE Questions(m, j + 4, n - 1)
(* r: "txt" with v; "fail" for a record overrunning the response; "open" for *)
(* a response malformed in a way about which nothing is promised             *)
RECURSIVE Answers(_, _, _, _)
Answers(m, i, n, out) ==
  IF n = 0 THEN [r |-> "txt", v |-> out]
  ELSE LET j == NameSkip(m, i) IN
       IF j = 0 THEN [r |-> "open", v |-> out]
       ELSE IF j + 9 > Len(m) THEN [r |-> "fail", v |-> <<>>]
       ELSE LET type == U16(m, j)
                len  == U16(m, j + 8)
                lo   == j + 10
                hi   == j + 9 + len
            IN IF hi > Len(m) THEN [r |-> "fail", v |-> <<>>]
               ELSE IF type # 16 THEN Answers(m, hi + 1, n - 1, out)
               ELSE LET t == Strings(m, lo, hi, <<>>) IN
                    IF ~t.ok THEN [r |-> "open", v |-> out]
                    ELSE Answers(m, hi + 1, n - 1, out \o t.v)
DnsTxt(m) ==
  IF Len(m) < 12 THEN [r |-> "open", v |-> <<>>]
  ELSE LET q == Questions(m, 13, U16(m, 5)) IN
       IF q = 0 THEN [r |-> "open", v |-> <<>>] ELSE Answers(m, q, U16(m, 7), <<>>)
\* the whole lookup; herr: "" (a response), "notfound", "nodata", "norecovery", "tryagain"
Lookup(herr, m) ==
  IF herr = "tryagain" THEN [r |-> "fail", v |-> <<>>]
  ELSE IF herr # "" THEN [r |-> "txt", v |-> <<>>]
  ELSE DnsTxt(m)

\* host-like names: labels of letters, digits and inner hyphens
RECURSIVE SplitDot(_)
SplitDot(s) == LET e == Find(s, 46, 1) IN
               IF e = 0 THEN <<s>> ELSE <<SubSeq(s, 1, e - 1)>> \o SplitDot(SubSeq(s, e + 1, Len(s)))
LabelOk(l) == /\ l # <<>> /\ IsAlnum(l[1]) /\ IsAlnum(l[Len(l)])
              /\ \A i \in 1..Len(l) : IsAlnum(l[i]) \/ l[i] = 45
DomainOk(s) == LET ls == SplitDot(s) IN \A i \in 1..Len(ls) : LabelOk(ls[i])
=============================================================================
