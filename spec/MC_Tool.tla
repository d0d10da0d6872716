------------------------------- MODULE MC_Tool ------------------------------
(* Command lines of the tool, at most MaxDev changes away from plain ones: a *)
(* word spelled otherwise, moved, dropped, or one more put in.  Their words  *)
(* are kept, so what they come to is told a second time without parsing; and *)
(* the run on a small world of files has the outcome its words make evident. *)
EXTENDS Tool, Ideal, Json
CONSTANTS MaxDev, EmitOn
VARIABLES words, dev
vars == <<words, dev>>
Now == B("1700000000")

\* ---- words: an option in some spelling, an operand, or -- (which the reading may not yet have passed)
O(o, v) == [k |-> "opt", o |-> o, v |-> v, form |-> <<"short">>]
F(n) == [k |-> "file", v |-> n]
Bad1(t) == [k |-> "bad", v |-> t]
LongForms(o) == CASE o = "a" -> {"arc"} [] o = "A" -> {"arcinstance"} [] o = "h" -> {"help"} [] o = "v" -> {"validate"} [] o = "s" -> {"selector"}
                  [] o = "d" -> {"domain"} [] o = "k" -> {"keyfile"} [] o = "K" -> {"keytype", "keyformat"}
Forms(o) == {<<"short">>} \cup {<<"--", x>> : x \in LongForms(o)} \cup (IF TakesValue(o) THEN {<<"joined">>} \cup {<<"--", x, "=">> : x \in LongForms(o)} ELSE {})
Spell(w) ==
  IF w.k # "opt" THEN <<B(w.v)>>
  ELSE IF w.form[1] = "short" THEN <<B("-") \o B(w.o)>> \o (IF TakesValue(w.o) THEN <<B(w.v)>> ELSE <<>>)
  ELSE IF w.form[1] = "joined" THEN <<B("-") \o B(w.o) \o B(w.v)>>
  ELSE IF Len(w.form) = 3 THEN <<B("--") \o B(w.form[2]) \o B("=") \o B(w.v)>>
  ELSE <<B("--") \o B(w.form[2])>> \o (IF TakesValue(w.o) THEN <<B(w.v)>> ELSE <<>>)
Argv == Flat([k \in 1..Len(words) |-> Spell(words[k])])

Bases == << <<O("s", "s"), O("d", "e.x"), O("k", "rsa.pem"), F("m")>>,
            <<O("K", "ed25519"), O("k", "ed.key"), O("d", "E.x"), O("s", "t"), F("plain")>>,
            <<O("A", "3"), O("s", "s"), O("d", "e.x"), O("k", "rsa.pem"), F("plain")>>,
            <<O("v", ""), F("m")>>, <<O("a", ""), O("v", ""), F("m"), F("plain")>> >>
Extras == { O("a", ""), O("A", "1"), O("A", "51"), O("A", "0"), O("h", ""), O("v", ""), O("s", "other"), O("s", "-bad-"), O("d", "x..y"), O("k", "none"), O("k", "ed.key"), O("k", "junk"),
            O("K", "ed25519"), O("K", "rsa"), F("none"), F("m"), F("plain"), F("odd"), F("--"), Bad1("-z"), Bad1("--nope"), Bad1("--arc=1"), Bad1("-vz") }
Init == words \in {Bases[k] : k \in 1..Len(Bases)} /\ dev = 0
InsertAt3(l, i, x) == SubSeq(l, 1, i - 1) \o <<x>> \o SubSeq(l, i, Len(l))
Without(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
Respell == \E i \in 1..Len(words) : words[i].k = "opt" /\ \E f \in Forms(words[i].o) \ {words[i].form} : words' = [words EXCEPT ![i].form = f]
Move    == \E i \in 1..Len(words) : \E j \in 1..Len(words) : i # j /\ words' = InsertAt3(Without(words, i), j, words[i])
Lose    == \E i \in 1..Len(words) : words' = Without(words, i)
Add     == \E x \in Extras : \E i \in 1..(Len(words) + 1) : words' = InsertAt3(words, i, x)
Next == dev < MaxDev /\ dev' = dev + 1 /\ (Respell \/ Move \/ Lose \/ Add)
Spec == Init /\ [][Next]_vars

\* ---- what the words come to, told without reading letters
Sep == LET k == {i \in 1..Len(words) : words[i].k = "file" /\ words[i].v = "--"} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
Active == IF Sep = 0 THEN words ELSE SubSeq(words, 1, Sep - 1)
Tail1 == IF Sep = 0 THEN <<>> ELSE Flat([k \in 1..(Len(words) - Sep) |-> Spell(words[Sep + k])])
Stopper == LET k == {i \in 1..Len(Active) : Active[i].k = "bad" \/ (Active[i].k = "opt" /\ Active[i].o = "h")} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
LastOf(o, default) == LET k == {i \in 1..Len(Active) : Active[i].k = "opt" /\ Active[i].o = o} IN
                      IF k = {} THEN default ELSE B(Active[CHOOSE i \in k : \A j \in k : j <= i].v)
Given(o) == \E i \in 1..Len(Active) : Active[i].k = "opt" /\ Active[i].o = o
Told ==
  IF Stopper > 0 THEN [end |-> IF Active[Stopper].k = "bad" THEN "usage" ELSE "help"]
  ELSE LET fs == (SelectSeq(Active, LAMBDA w : w.k = "file"))
           files == [k \in 1..Len(fs) |-> B(fs[k].v)] \o Tail1
           lacking == files = <<>> \/ (~Given("v") /\ (~Given("s") \/ ~Given("d") \/ ~Given("k")))
       IN [end |-> IF lacking THEN "usage" ELSE "", arc |-> Given("a"), inst |-> LastOf("A", <<48>>), validate |-> Given("v"), sel |-> LastOf("s", <<>>), dom |-> LastOf("d", <<>>),
           keyfile |-> LastOf("k", <<>>), keytype |-> LastOf("K", B("rsa")), files |-> files]
Reads == LET a == Args(Argv) t == Told IN a.end = t.end /\ (t.end = "" => \A f \in DOMAIN t : a[f] = t[f])

\* ---- the world: a message with every sort of signature, one with none, one nobody can sign
Body1 == B("hello") \o CRLF
Plain1 == B("From: a@e.x") \o CRLF \o B("Subject: hi") \o CRLF \o CRLF \o Body1
Odd1 == B("From: a") \o <<13>> \o B("b@e.x") \o CRLF \o CRLF \o Body1
Of(s, w) == TLCEval(IdealField(Plain1, [Plain EXCEPT !.s = s] @@ w))
Spoilt(s) == TLCEval(IdealOver(Plain1, B("other"), [Plain EXCEPT !.s = s]))
Ed(s) == TLCEval(IdealField(Plain1, [Plain EXCEPT !.s = s, !.kid = "ed_a"]))
Arc1(n) == TLCEval(IdealField(Plain1, [Plain EXCEPT !.arc = n, !.kid = "ed_a"]))
Signed == TLCEval(LET fs == << Of("good", <<>>), Of("test", <<>>), Of("wrong", <<>>), Of("softwrong", <<>>), Of("down", <<>>), Of("gone", <<>>), B("DKIM-Signature: v=1; a=none"), Spoilt("good"), Ed("ed"), Arc1(1), Arc1(50), B("ARC-Message-Signature: i=51; bad") >>
          IN Flat([k \in 1..Len(fs) |-> fs[k] \o CRLF]) \o Plain1)
\* the classes of its lines, one after the other
Evident == << "ok", "ok", "fail", "fail", "temperror", "permerror", "permerror", "fail", "ok" >>
EvidentArc == << "ok", "ok", "permerror" >>
Softs == << FALSE, TRUE, FALSE, TRUE, FALSE, FALSE, FALSE, FALSE, FALSE >>
QueryOf(s) == ToHex(B(s) \o B("._domainkey.e.x"))
Key(kid, more) == ToHex(B(more) \o KeyText(kid))
Entry(s, ok, t) == [q |-> QueryOf(s), ok |-> ok, txt |-> t]
TestKey(kid) == ToHex(KeyText(kid) \o B("; t=y"))
TableList == TLCEval(<< Entry("good", TRUE, ToHex(KeyText("rsa_a"))), Entry("test", TRUE, TestKey("rsa_a")), Entry("wrong", TRUE, ToHex(KeyText("rsa_b"))), Entry("softwrong", TRUE, TestKey("rsa_b")),
   Entry("down", FALSE, ""), Entry("gone", TRUE, ""), Entry("ed", TRUE, ToHex(KeyText("ed_a"))), Entry("s", TRUE, ToHex(KeyText("ed_a"))) >>)
Tab == TLCEval([q \in {TableList[k].q : k \in 1..Len(TableList)} |-> LET k == CHOOSE k \in 1..Len(TableList) : TableList[k].q = q IN [ok |-> TableList[k].ok, txt |-> TableList[k].txt]])
NoKeyIn == [kid |-> "none", form |-> "text"]
Files == TLCEval(<< [name |-> "m", data |-> ToHex(Signed)] @@ NoKeyIn, [name |-> "plain", data |-> ToHex(Plain1)] @@ NoKeyIn, [name |-> "odd", data |-> ToHex(Odd1)] @@ NoKeyIn,
   [name |-> "rsa.pem", data |-> "", kid |-> "rsa_a", form |-> "pem"], [name |-> "ed.key", data |-> "", kid |-> "ed_b", form |-> "b64seed"], [name |-> "junk", data |-> "", kid |-> "none", form |-> "text"] >>)
\* what validating each file prints, worked out once
MLines == TLCEval(FileLines(Files[1], "dkim", Tab, Now))
MArcLines == TLCEval(FileLines(Files[1], "arc", Tab, Now))
NoLines == TLCEval(FileLines(Files[2], "arc", Tab, Now) \o FileLines(Files[3], "dkim", Tab, Now))
Outcome ==
  LET a == Args(Argv) IN
  IF a.end # "" THEN a.end ELSE IF a.validate THEN "lines"
  ELSE ToolExpect(Argv, Files, Tab, Now).r
\* told by the words
Can(kid, t) == IF t = B("ed25519") THEN kid = B("ed.key") ELSE kid = B("rsa.pem")
OutcomeTold ==
  LET t == Told IN
  IF t.end # "" THEN t.end ELSE IF t.validate THEN "lines"
  ELSE IF t.files[1] \notin {B("m"), B("plain")} \/ ~Can(t.keyfile, t.keytype) \/ t.sel = B("-bad-") \/ t.dom = B("x..y") \/ t.inst = B("51") THEN "failed" ELSE "signed"
Outcomes == Outcome = OutcomeTold
World == /\ [k \in 1..Len(MLines) |-> MLines[k].class] \o <<>> = Evident
         /\ [k \in 1..Len(MLines) |-> MLines[k].must] \o <<>> = Softs
         /\ [k \in 1..Len(MArcLines) |-> MArcLines[k].class] \o <<>> = EvidentArc
         /\ NoLines = <<>>
ASSUME World
Shown(l) == [k \in 1..Len(l) |-> [l[k] EXCEPT !.file = ToHex(@), !.d = ToHex(@), !.s = ToHex(@)]] \o <<>>
Generate == IF ~EmitOn THEN TRUE
            ELSE /\ (IF words = Bases[1] /\ dev = 0 THEN Emit([files |-> Files, tab |-> TableList, dkim |-> Shown(MLines), arc |-> Shown(MArcLines)]) ELSE TRUE)
                 /\ Emit([argv |-> [k \in 1..Len(Argv) |-> ToHex(Argv[k])] \o <<>>, r |-> OutcomeTold, arc |-> Args(Argv).arc, signarc |-> SmallNum(LeadingDigits(Args(Argv).inst, 1)) # 0, files |-> [k \in 1..Len(Args(Argv).files) |-> ToHex(Args(Argv).files[k])] \o <<>>])
=============================================================================
