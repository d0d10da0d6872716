---------------------------- MODULE MC_Protocol -----------------------------
(* Sign, carry, verify.  A message is signed (by the specification), carried *)
(* through steps that change it, and judged at every point of the way.       *)
(* Steps the canonicalization in force tolerates leave the verdict alone;    *)
(* the first step that touches something signed makes it fail for good.      *)
(* fields: the header, top first; sf: the index of the signature field;      *)
(* broken: a signed thing has been touched;  n: steps taken.                 *)
EXTENDS Signer, KeysPriv
CONSTANTS MaxOps, Algs, Part, Parts, EmitOn
VARIABLES cf, fields, sf, body, broken, lf, n
vars == <<cf, fields, sf, body, broken, lf, n>>

Msgs == { [f |-> <<B("From: a"), B("Subject: x  y"), B("To: b")>>, b |-> B("hi ") \o CRLF \o CRLF \o B("you") \o CRLF \o CRLF],
          [f |-> <<B("Subject: one"), B("X: u") \o CRLF \o B(" v"), B("subject: two"), B("FROM:a"), B("Subject: three")>>, b |-> <<>>] }
HSels == { <<"from">>, <<"from", "subject">>, <<"Subject", "From", "subject", "SUBJECT", "subject", "from">>, <<"to", "nope", "from", "x">> }
Lims == {-1, 0, 2, 99}     \* -1: no l=; 99: all of it
Confs == { [m |-> m, ch |-> ch, cb |-> cb, h |-> h, l |-> l, alg |-> a] :
             m \in Msgs, ch \in Modes, cb \in Modes, h \in HSels, l \in Lims, a \in Algs }
HashOf(a) == IF a = "rsa1" THEN "sha1" ELSE "sha256"
KidFor(a) == IF a = "ed" THEN "ed_a" ELSE "rsa_a"
AName(a)  == CASE a = "rsa1" -> "rsa-sha1" [] a = "ed" -> "ed25519-sha256" [] OTHER -> "rsa-sha256"
Names(c)  == [i \in 1..Len(c.h) |-> B(c.h[i])]
FullLen(c) == Len(BodyLocal(c.cb, c.m.b))
LimOf(c) == IF c.l = 99 THEN FullLen(c) ELSE c.l
LimRec(c) == [set |-> c.l >= 0, d |-> IF c.l >= 0 THEN Decimal(LimOf(c)) ELSE <<48>>, n |-> IF c.l >= 0 THEN LimOf(c) ELSE 0]
JoinColon(l) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o <<58>> \o x, <<>>, l)
Head1(c, bh) == B("DKIM-Signature: v=1; a=") \o B(AName(c.alg)) \o B("; c=") \o B(c.ch) \o B("/") \o B(c.cb)
               \o B("; d=e.x; s=s;") \o CRLF \o B(" h=") \o JoinColon(Names(c))
               \o (IF c.l >= 0 THEN B("; l=") \o Decimal(LimOf(c)) ELSE <<>>)
               \o B("; bh=") \o bh \o B("; b=")
HdrRec(t) == LET k == Find(t, 58, 1) IN [text |-> t, voff |-> k, name |-> IF k = 0 THEN <<>> ELSE TrimWsp(SubSeq(t, 1, k - 1))]
HdrRecs(fs) == TLCEval([i \in 1..Len(fs) |-> HdrRec(fs[i])])
SignText(c) ==
  LET bh == B64Encode(Sha(HashOf(c.alg), BodyLimited(BodyLocal(c.cb, c.m.b), LimRec(c))))
      t == Head1(c, bh)
      hs == HdrRecs(c.m.f)
      pre == Preimage(c.ch, hs, Selected(hs, 0, Names(c)), t)
  IN t \o B64Encode(SignWith(KidFor(c.alg), HashOf(c.alg), pre.v))

\* the body must hold as much as is signed
Fits(c) == c.l <= FullLen(c) \/ c.l = 99
\* the runs are spread over parts by what the configuration is made of
Slot(c) == (Len(c.h) * 7 + (c.l + 1) * 3 + (IF c.ch = "simple" THEN 1 ELSE 0) + (IF c.cb = "simple" THEN 2 ELSE 0) + Len(c.m.f)) % Parts
Init == /\ cf \in {c \in Confs : Fits(c) /\ Slot(c) = Part}
        /\ fields = <<SignText(cf)>> \o cf.m.f
        /\ sf = 1 /\ body = cf.m.b /\ broken = FALSE /\ lf = FALSE /\ n = 0

\* ---- what the configuration covers
Low == [i \in 1..Len(cf.h) |-> Lower(B(cf.h[i]))]
NameAt(i) == Lower(HdrRec(fields[i]).name)
Wanted(name) == Cardinality({i \in 1..Len(Low) : Low[i] = name})
Below(i) == Cardinality({j \in (i + 1)..Len(fields) : NameAt(j) = NameAt(i)})
Covered(i) == i # sf /\ Below(i) < Wanted(NameAt(i))
Have(name) == Cardinality({i \in 1..Len(fields) : NameAt(i) = name})
Go(fs, b, s) == fields' = fs /\ body' = b /\ sf' = s
Harm == ~broken /\ broken' = TRUE     \* one harm each; what follows must not undo it
NoBody == LimOf(cf) = 0 /\ cf.l >= 0      \* nothing of the body is signed
Keep == broken' = broken
Same == UNCHANGED <<cf, lf>> /\ n' = n + 1
Put1(fs, i, t) == [fs EXCEPT ![i] = t]
InsertAt2(fs, i, t) == SubSeq(fs, 1, i - 1) \o <<t>> \o SubSeq(fs, i, Len(fs))
Drop(fs, i) == SubSeq(fs, 1, i - 1) \o SubSeq(fs, i + 1, Len(fs))
Colon(i) == Find(fields[i], 58, 1)
WspAt(i) == LET k == SelectInSubSeq(fields[i], Colon(i) + 1, Len(fields[i]), IsWsp) IN k
Relaxed(m, i) == Covered(i) \/ i = sf

\* ---- tolerated
ToLf        == ~lf /\ lf' = TRUE /\ Keep /\ n' = n + 1 /\ UNCHANGED <<cf, fields, sf, body>>
AddUnsigned == \E i \in 1..(Len(fields) + 1) : Go(InsertAt2(fields, i, B("Y: new")), body, IF i <= sf THEN sf + 1 ELSE sf) /\ Keep /\ Same
AddAbove    == \E name \in {B("Subject"), B("X")} : Have(Lower(name)) >= Wanted(Lower(name)) /\ Go(<<name \o B(": new")>> \o fields, body, sf + 1) /\ Keep /\ Same
TailLines   == (body = <<>> \/ EndsWith(body, CRLF)) /\ Go(fields, body \o CRLF, sf) /\ Keep /\ Same
BeyondL     == cf.l >= 0 /\ (LimOf(cf) = 0 \/ (EndsWith(body, CRLF) /\ LimOf(cf) <= Len(BodyLocal(cf.cb, body)) /\ BodyLocal(cf.cb, body) # CRLF))
               /\ Go(fields, body \o B("+") \o CRLF, sf) /\ Keep /\ Same
\* white space and case: tolerated when relaxed (or not signed at all), else harm
HeadWsp     == \E i \in 1..Len(fields) : WspAt(i) > 0
               /\ Go(Put1(fields, i, SubSeq(fields[i], 1, WspAt(i)) \o B(" ") \o SubSeq(fields[i], WspAt(i) + 1, Len(fields[i]))), body, sf)
               /\ (IF (Covered(i) \/ i = sf) /\ cf.ch = "simple" THEN Harm ELSE Keep) /\ Same
Refold      == \E i \in 1..Len(fields) : WspAt(i) > 1 /\ fields[i][WspAt(i) - 1] # LF
               /\ Go(Put1(fields, i, SubSeq(fields[i], 1, WspAt(i) - 1) \o CRLF \o SubSeq(fields[i], WspAt(i), Len(fields[i]))), body, sf)
               /\ (IF (Covered(i) \/ i = sf) /\ cf.ch = "simple" THEN Harm ELSE Keep) /\ Same
NameCase    == \E i \in 1..Len(fields) : LET c == fields[i][1] IN
               /\ Go(Put1(fields, i, <<IF IsUpper(c) THEN c + 32 ELSE c - 32>> \o Tail(fields[i])), body, sf)
               /\ (IF (Covered(i) \/ i = sf) /\ cf.ch = "simple" THEN Harm ELSE Keep) /\ Same
BodyWsp     == Find(body, CR, 1) > 0 /\ LET k == Find(body, CR, 1) IN
               /\ (cf.l < 0 \/ NoBody)
               /\ Go(fields, SubSeq(body, 1, k - 1) \o B(" ") \o SubSeq(body, k, Len(body)), sf)
               /\ (IF cf.cb = "simple" /\ ~NoBody THEN Harm ELSE Keep) /\ Same
BWsp        == LET t == fields[sf] IN Go(Put1(fields, sf, SubSeq(t, 1, Len(t) - 9) \o CRLF \o B("  ") \o SubSeq(t, Len(t) - 8, Len(t))), body, sf) /\ Keep /\ Same
\* ---- harmful
Alter       == \E i \in 1..Len(fields) : i # sf
               /\ Go(Put1(fields, i, fields[i] \o B("z")), body, sf) /\ (IF Covered(i) THEN Harm ELSE Keep) /\ Same
DropField   == \E i \in 1..Len(fields) : i # sf /\ (~Covered(i) \/ Have(NameAt(i)) <= Wanted(NameAt(i)))
               /\ Go(Drop(fields, i), body, IF i < sf THEN sf - 1 ELSE sf) /\ (IF Covered(i) THEN Harm ELSE Keep) /\ Same
Value(t)    == LET c == HeaderLocal(cf.ch, t) IN c
Exchange    == \E i, j \in 1..Len(fields) : i < j /\ i # sf /\ j # sf /\ NameAt(i) = NameAt(j)
               /\ Go([fields EXCEPT ![i] = fields[j], ![j] = fields[i]], body, sf)
               /\ (IF Covered(j) /\ Value(fields[i]) # Value(fields[j]) THEN Harm ELSE Keep) /\ Same
Smuggle     == \E name \in {B("From"), B("subject"), B("Nope")} : Have(Lower(name)) < Wanted(Lower(name)) /\ \E i \in {1, Len(fields) + 1} :
               Go(InsertAt2(fields, i, name \o B(": evil")), body, IF i <= sf THEN sf + 1 ELSE sf) /\ Harm /\ Same
BelowSigned == \E name \in {B("From"), B("Subject")} : Wanted(Lower(name)) > 0
               /\ Go(Append(fields, name \o B(": below")), body, sf) /\ Harm /\ Same
BodyFirst   == Go(fields, B("!") \o body, sf) /\ (IF NoBody THEN Keep ELSE Harm) /\ Same
BodyLines   == Go(fields, CRLF \o B("?") \o body, sf) /\ (IF NoBody \/ (cf.l > 0 /\ cf.m.b = <<>> /\ ~broken) THEN Keep ELSE Harm) /\ Same
BodyGone    == cf.m.b # <<>> /\ body # <<>> /\ Go(fields, <<>>, sf) /\ (IF NoBody THEN Keep ELSE Harm) /\ Same
Grow        == cf.l < 0 /\ Go(fields, body \o B("tail"), sf) /\ Harm /\ Same
SigTag      == \E t \in {B("; t=1"), B(";zz=")} : LET f == fields[sf] k == Find(f, 59, 1) IN   \* a tag more
               Go(Put1(fields, sf, SubSeq(f, 1, k - 1) \o t \o SubSeq(f, k, Len(f))), body, sf) /\ Harm /\ Same
SigBit      == LET t == fields[sf] k == Len(t) - 9 IN
               Go(Put1(fields, sf, [t EXCEPT ![k] = IF @ = 65 THEN 66 ELSE 65]), body, sf) /\ t[k] \notin {65, 32, 10, 13, 66} /\ Harm /\ Same
Next == n < MaxOps /\
        \/ ToLf \/ AddUnsigned \/ AddAbove \/ TailLines \/ BeyondL \/ HeadWsp \/ Refold \/ NameCase \/ BodyWsp \/ BWsp
        \/ Alter \/ DropField \/ Exchange \/ Smuggle \/ BelowSigned \/ BodyFirst \/ BodyLines \/ BodyGone \/ Grow \/ SigTag \/ SigBit
Spec == Init /\ [][Next]_vars

\* ---- the message as octets, read back and judged
Eol == IF lf THEN <<LF>> ELSE CRLF
Conv(t) == IF lf THEN SelectSeq(t, LAMBDA c : c # CR) ELSE t
Message == Flat([i \in 1..Len(fields) |-> Conv(fields[i]) \o Eol]) \o Eol \o Conv(body)
Judge == LET m == Message
             p == ParseMail(m)
             f == p.hdrs[sf]
             s == ParseSig(f.text, f.voff, LName(f), B("1700000000"))
             key == [type |-> KeyType[KidFor(cf.alg)], key |-> KeyPub[KidFor(cf.alg)], hashes |-> {"sha1", "sha256"}, flags |-> <<>>, mail |-> "all", strict |-> FALSE, testing |-> FALSE]
         IN IF ~s.ok THEN [b |-> RPermerror, s |-> RAny]
            ELSE [b |-> BodyVerdict(s.v, BodyOf(m, p)), s |-> SigVerdict(p.hdrs, sf, s.v, key)]
Good(j) == j.b = RPass /\ j.s = RPass
\* C02 and C03 at once; and a harm, once done, is never undone by what is tolerated
Verdict == LET j == Judge IN (~broken => Good(j)) /\ (broken => ~Good(j))
           /\ (IF EmitOn THEN Emit([data |-> ToHex(Message), kid |-> KidFor(cf.alg), b |-> j.b, s |-> j.s]) ELSE TRUE)
Parsed == LET p == ParseMail(Message) IN [i \in 1..Len(fields) |-> p.hdrs[i].text] \o <<>> = fields /\ Len(p.hdrs) = Len(fields)
HarmStays == [][broken => broken']_vars
=============================================================================
