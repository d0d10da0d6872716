------------------------------- MODULE Codec --------------------------------
(* Base64 (RFC 4648, padded), DKIM-quoted-printable (RFC 6376 2.11) and      *)
(* encoded words (RFC 2047) as the library reads them.                       *)
EXTENDS Lexis

B64Table == B("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
IsB64(c) == IsAlnum(c) \/ c = 43 \/ c = 47
B64Val(c) == IF IsUpper(c) THEN c - 65 ELSE IF IsLowerC(c) THEN c - 71 ELSE IF IsDigit(c) THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE 63

B64Group(s, i) ==   \* encodes octets i, i+1, i+2 (those that exist)
  LET a == s[i]
      b == IF i + 1 <= Len(s) THEN s[i + 1] ELSE 0
      c == IF i + 2 <= Len(s) THEN s[i + 2] ELSE 0
  IN <<B64Table[a \div 4 + 1], B64Table[(a % 4) * 16 + b \div 16 + 1],
       IF i + 1 <= Len(s) THEN B64Table[(b % 16) * 4 + c \div 64 + 1] ELSE 61,
       IF i + 2 <= Len(s) THEN B64Table[(c % 64) + 1] ELSE 61>>
B64Encode(s) == Flat([k \in 1..((Len(s) + 2) \div 3) |-> B64Group(s, 3 * k - 2)])

\* strict decoding of canonical padded text; Bad otherwise (also when the bits that padding leaves over are not 0)
B64Pad(s) == IF Len(s) >= 2 /\ s[Len(s)] = 61 THEN (IF s[Len(s) - 1] = 61 THEN 2 ELSE 1) ELSE 0
B64Decode(s) ==
  LET p == B64Pad(s) n == Len(s) - p IN
  IF s = <<>> THEN Ok(<<>>)
  ELSE IF Len(s) % 4 # 0 \/ (\E i \in 1..n : ~IsB64(s[i])) THEN Bad
  ELSE LET v(i) == IF i <= n THEN B64Val(s[i]) ELSE 0
           g(k) == LET i == 4 * k - 3 IN
                   <<v(i) * 4 + v(i + 1) \div 16, (v(i + 1) % 16) * 16 + v(i + 2) \div 4, (v(i + 2) % 4) * 64 + v(i + 3)>>
           all == TLCEval(Flat([k \in 1..(Len(s) \div 4) |-> g(k)]))
           out == SubSeq(all, 1, Len(all) - p)
       IN IF \E i \in (Len(all) - p + 1)..Len(all) : all[i] # 0 THEN Bad ELSE Ok(out)

IsHexC(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70)
HexV(c)   == IF IsDigit(c) THEN c - 48 ELSE c - 55
HexC(n)   == IF n < 10 THEN 48 + n ELSE 55 + n
IsSafe(c) == c >= 33 /\ c <= 126 /\ c # 61 /\ c # 59
QpEncode(s) == Flat([i \in 1..Len(s) |-> IF IsSafe(s[i]) THEN <<s[i]>>
                           ELSE <<61, HexC(s[i] \div 16), HexC(s[i] % 16)>>])
RECURSIVE QpFrom(_, _, _, _)
QpFrom(s, i, words, out) ==
  IF i > Len(s) THEN Ok(out)
  ELSE IF words /\ s[i] = 95 THEN QpFrom(s, i + 1, words, Append(out, SP))
  ELSE IF s[i] = 61
       THEN IF i + 2 <= Len(s) /\ IsHexC(s[i + 1]) /\ IsHexC(s[i + 2])
            THEN QpFrom(s, i + 3, words, Append(out, HexV(s[i + 1]) * 16 + HexV(s[i + 2])))
            ELSE Bad
  ELSE IF IsSafe(s[i]) THEN QpFrom(s, i + 1, words, Append(out, s[i]))
  ELSE LET f == Fws(s, i) IN
       IF f.err \/ f.n = 0 THEN Bad ELSE QpFrom(s, i + f.n, words, out)
QpDecode(s, words) == QpFrom(s, 1, words, <<>>)

\* the same octet by octet (linear in the length)
QpLocal(s, words) ==
  LET n == Len(s)
      hex(i) == i <= n /\ IsHexC(s[i])
      okat(i) == CASE s[i] = 61 -> hex(i + 1) /\ hex(i + 2)
                   [] s[i] = CR -> i + 2 <= n /\ s[i + 1] = LF /\ IsWsp(s[i + 2])
                   [] s[i] = LF -> i > 1 /\ s[i - 1] = CR
                   [] OTHER     -> IsSafe(s[i]) \/ IsWsp(s[i])
      esc(i) == (i > 1 /\ s[i - 1] = 61) \/ (i > 2 /\ s[i - 2] = 61)
  IN IF \E i \in 1..n : ~okat(i) THEN Bad
     ELSE Ok(Flat([i \in 1..n |-> IF s[i] = 61 THEN <<HexV(s[i + 1]) * 16 + HexV(s[i + 2])>>
                                  ELSE IF esc(i) \/ IsLoose(s[i]) THEN <<>>
                                  ELSE IF words /\ s[i] = 95 THEN <<SP>> ELSE <<s[i]>>]))

(* ---- encoded words ---- *)
\* white space before position i as the decoder reads it: WSP collected, CRLF dropped
RECURSIVE EwWs(_, _, _)
EwWs(s, i, ws) ==
  IF i <= Len(s) /\ IsWsp(s[i]) THEN EwWs(s, i + 1, Append(ws, s[i]))
  ELSE LET c == ReadWs("crlf", s, i) IN
       IF c.err THEN [err |-> TRUE, i |-> i, ws |-> ws]
       ELSE IF c.n > 0 THEN EwWs(s, i + 2, ws)
       ELSE [err |-> FALSE, i |-> i, ws |-> ws]
\* end of the part before the next "?" from i (0: no further "?")
Q(s, i) == Find(s, 63, i)
\* a candidate word at i (s[i] is "="): [len consumed, ok, enc, data]
EwWord(s, i) ==
  LET bad(n) == [n |-> n, ok |-> FALSE, enc |-> <<>>, data |-> <<>>]
      rest == Len(s) - i + 1 IN
  IF i + 1 > Len(s) \/ s[i + 1] # 63 THEN bad(1)
  ELSE LET q1 == Q(s, i + 2) IN IF q1 = 0 THEN bad(rest) ELSE
       LET q2 == Q(s, q1 + 1) IN IF q2 = 0 THEN bad(rest) ELSE
       LET q3 == Q(s, q2 + 1) IN IF q3 = 0 THEN bad(rest) ELSE
       IF q3 + 1 > Len(s) \/ s[q3 + 1] # 61 THEN bad(q3 - i + 1)
       ELSE [n |-> q3 + 2 - i,
             ok |-> (q3 + 2 > Len(s) \/ IsLoose(s[q3 + 2])),
             enc |-> SubSeq(s, q1 + 1, q2 - 1), data |-> SubSeq(s, q2 + 1, q3 - 1)]
\* any: the text of a B word is not canonical base64; then nothing is claimed
EwData(w) == IF w.enc \in {B("q"), B("Q")} THEN QpDecode(w.data, TRUE)
             ELSE IF w.enc \in {B("b"), B("B")} THEN B64Decode(w.data)
             ELSE Bad
RECURSIVE EwFrom(_, _, _)
EwFrom(s, i, out) ==
  LET k == EwWs(s, i, <<>>) IN
  IF k.err THEN Bad
  ELSE IF k.i > Len(s) THEN Ok(out)
  ELSE IF s[k.i] = 61
       THEN LET w == EwWord(s, k.i)
                d == EwData(w)
            IN IF w.ok /\ d.ok THEN EwFrom(s, k.i + w.n, out \o d.v)
               ELSE EwFrom(s, k.i + w.n, out \o k.ws \o SubSeq(s, k.i, k.i + w.n - 1))
       ELSE EwFrom(s, k.i + 1, Append(out \o k.ws, s[k.i]))
EwDecode(s) == LET k == SkipFws(s, 1) IN IF k.err THEN Bad ELSE EwFrom(s, k.i, <<>>)
\* does the result depend on how non-canonical base64 is read
EwOpen(s) == \E i \in 1..Len(s) : s[i] = 61 /\
               LET w == EwWord(s, i) IN w.ok /\ w.enc \in {B("b"), B("B")} /\ ~B64Decode(w.data).ok
=============================================================================
