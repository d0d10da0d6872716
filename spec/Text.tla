-------------------------------- MODULE Text --------------------------------
(* Octet strings: sequences of 0..255, and the small vocabulary on them that *)
(* every other module uses.  Positions are 1-based; 0 means "none".          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, DkimJ

CR == 13   LF == 10   SP == 32   TAB == 9
CRLF == <<13, 10>>

AsciiTable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(AsciiTable, i, i) : i \in 1..Len(AsciiTable)} |->
             31 + (CHOOSE i \in 1..Len(AsciiTable) : SubSeq(AsciiTable, i, i) = c)]
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]    \* string -> octets

IsWsp(c)   == c = 32 \/ c = 9
IsLoose(c) == c = 32 \/ c = 9 \/ c = 13 \/ c = 10
IsUpper(c) == c >= 65 /\ c <= 90
IsLowerC(c) == c >= 97 /\ c <= 122
IsDigit(c) == c >= 48 /\ c <= 57
IsAlnum(c) == IsUpper(c) \/ IsLowerC(c) \/ IsDigit(c)
LowerC(c)  == IF IsUpper(c) THEN c + 32 ELSE c
Lower(s)   == [i \in 1..Len(s) |-> LowerC(s[i])] \o <<>>

\* first position >= i holding c, or 0
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE SelectInSubSeq(s, i, Len(s), LAMBDA x : x = c)
\* first position >= i that is not WSP / not loose white space (may be Len+1)
SkipWsp(s, i) == IF i > Len(s) THEN i
                 ELSE LET k == SelectInSubSeq(s, i, Len(s), LAMBDA x : ~IsWsp(x)) IN IF k = 0 THEN Len(s) + 1 ELSE k
SkipLoose(s, i) == IF i > Len(s) THEN i
                   ELSE LET k == SelectInSubSeq(s, i, Len(s), LAMBDA x : ~IsLoose(x)) IN IF k = 0 THEN Len(s) + 1 ELSE k
\* last position <= i that is not WSP / loose (0 if none)
BackWsp(s, i) == IF i < 1 THEN 0 ELSE SelectLastInSubSeq(s, 1, i, LAMBDA x : ~IsWsp(x))
BackLoose(s, i) == IF i < 1 THEN 0 ELSE SelectLastInSubSeq(s, 1, i, LAMBDA x : ~IsLoose(x))
TrimWsp(s) == SubSeq(s, SkipWsp(s, 1), BackWsp(s, Len(s)))

StripLoose(s) == SelectSeq(s, LAMBDA c : ~IsLoose(c))
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

\* decimal numbers of any size, as digit strings without leading zeros
RECURSIVE DropZeros(_)
DropZeros(d) == IF Len(d) > 0 /\ d[1] = 48 THEN DropZeros(Tail(d)) ELSE d
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
NumLess(a, b) == LET x == DropZeros(a) y == DropZeros(b) IN
                 IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLess(x, y, 1)
DigitRun(s, i) == IF i > Len(s) THEN i
                  ELSE LET k == SelectInSubSeq(s, i, Len(s), LAMBDA x : ~IsDigit(x)) IN IF k = 0 THEN Len(s) + 1 ELSE k
LeadingDigits(s, i) == SubSeq(s, i, DigitRun(s, i) - 1)
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
\* value of a digit string, saturating at 10^9 - 1
SmallNum(d) == LET x == DropZeros(d) IN
               IF Len(x) > 9 THEN 999999999
               ELSE FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, x)
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))

MaxLong == B("9223372036854775807")

Ok(v)  == [ok |-> TRUE, v |-> v]
Bad    == [ok |-> FALSE]
=============================================================================
