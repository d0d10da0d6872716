-------------------------------- MODULE Tool --------------------------------
(* The command line tool: how it reads its arguments, and what it prints     *)
(* for a message to sign or for messages to validate.                        *)
EXTENDS Options

\* ---- arguments.  What they come to: end is "" | "help" | "usage" (the reading stopped there)
NoArgs == [arc |-> FALSE, inst |-> <<48>>, validate |-> FALSE, sel |-> <<>>, dom |-> <<>>, keyfile |-> <<>>,
           keytype |-> B("rsa"), files |-> <<>>, end |-> ""]
LongNames == << [n |-> "arc", o |-> "a"], [n |-> "arcinstance", o |-> "A"], [n |-> "help", o |-> "h"], [n |-> "validate", o |-> "v"], [n |-> "selector", o |-> "s"],
               [n |-> "domain", o |-> "d"], [n |-> "keyfile", o |-> "k"], [n |-> "keyformat", o |-> "K"], [n |-> "keytype", o |-> "K"] >>
Letters == {"a", "A", "h", "v", "s", "d", "k", "K"}
LetterOf(c) == IF c \in {B(x)[1] : x \in Letters} THEN CHOOSE x \in Letters : B(x)[1] = c ELSE ""
LongOf(name) == LET k == {i \in 1..Len(LongNames) : B(LongNames[i].n) = name} IN
                IF k = {} THEN "" ELSE LongNames[CHOOSE i \in k : TRUE].o
TakesValue(o) == o \in {"A", "s", "d", "k", "K"}
SetArg(a, o, v) ==
  CASE o = "a" -> [a EXCEPT !.arc = TRUE]     [] o = "A" -> [a EXCEPT !.inst = v]
    [] o = "v" -> [a EXCEPT !.validate = TRUE] [] o = "h" -> [a EXCEPT !.end = "help"]
    [] o = "s" -> [a EXCEPT !.sel = v]         [] o = "d" -> [a EXCEPT !.dom = v]
    [] o = "k" -> [a EXCEPT !.keyfile = v]     [] o = "K" -> [a EXCEPT !.keytype = v]
Stop(a) == [a EXCEPT !.end = "usage"]
\* av[i] from its p-th octet on is a cluster of letters
RECURSIVE ReadArgs(_, _, _)
RECURSIVE ReadCluster(_, _, _, _)
ReadCluster(a, av, i, p) ==
  IF p > Len(av[i]) THEN ReadArgs(a, av, i + 1) ELSE
  LET o == LetterOf(av[i][p]) IN
  IF o = "" THEN Stop(a)
  ELSE IF ~TakesValue(o) THEN (IF o = "h" THEN SetArg(a, o, <<>>) ELSE ReadCluster(SetArg(a, o, <<>>), av, i, p + 1))
  ELSE IF p < Len(av[i]) THEN ReadArgs(SetArg(a, o, SubSeq(av[i], p + 1, Len(av[i]))), av, i + 1)
  ELSE IF i = Len(av) THEN Stop(a) ELSE ReadArgs(SetArg(a, o, av[i + 1]), av, i + 2)
ReadArgs(a, av, i) ==
  IF i > Len(av) \/ a.end # "" THEN a ELSE
  LET t == av[i] IN
  IF t = B("--") THEN [a EXCEPT !.files = @ \o SubSeq(av, i + 1, Len(av))]
  ELSE IF Len(t) < 2 \/ t[1] # 45 THEN ReadArgs([a EXCEPT !.files = Append(@, t)], av, i + 1)
  ELSE IF t[2] # 45 THEN ReadCluster(a, av, i, 2)
  ELSE LET eq == Find(t, 61, 3)
           o == LongOf(IF eq = 0 THEN SubSeq(t, 3, Len(t)) ELSE SubSeq(t, 3, eq - 1))
       IN IF o = "" \/ (eq > 0 /\ ~TakesValue(o)) THEN Stop(a)
          ELSE IF ~TakesValue(o) THEN ReadArgs(SetArg(a, o, <<>>), av, i + 1)
          ELSE IF eq > 0 THEN ReadArgs(SetArg(a, o, SubSeq(t, eq + 1, Len(t))), av, i + 1)
          ELSE IF i = Len(av) THEN Stop(a) ELSE ReadArgs(SetArg(a, o, av[i + 1]), av, i + 2)
Args(av) ==
  LET a == ReadArgs(NoArgs, av, 1) IN
  IF a.end # "" THEN a
  ELSE IF a.files = <<>> \/ (~a.validate /\ (a.sel = <<>> \/ a.dom = <<>> \/ a.keyfile = <<>>)) THEN Stop(a) ELSE a

\* ---- files: sequence of [name, data (hex), kid, form]; kid and form only of key files
FileNamed(fs, n) == LET k == {i \in 1..Len(fs) : B(fs[i].name) = n} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : TRUE

\* ---- signing: the options the arguments stand for; "fail" when a setter refuses
ToolCalls(a, f) ==
  LET S(n) == [c |-> "opt", n |-> "tool", f |-> n, i |-> 1] IN
  << S("alg") @@ [a |-> IF a.keytype = B("ed25519") THEN "ed25519" ELSE "rsa"], S("key") @@ [kid |-> f.kid, form |-> f.form],
     S("domain") @@ [data |-> ToHex(a.dom)], S("selector") @@ [data |-> ToHex(a.sel)] >>
ToolOptions(a, f) ==
  LET o == FoldLeft(LAMBDA x, e : LET y == OptSet(x.opt, e) IN [opt |-> y.opt, ok |-> x.ok /\ y.r = "ok"], [opt |-> NewOptions, ok |-> TRUE], ToolCalls(a, f)) IN
  IF ~o.ok THEN Bad ELSE
  Ok([o.opt EXCEPT !.arc = SmallNum(LeadingDigits(a.inst, 1)), !.ch = "relaxed", !.cb = "relaxed",
                   !.ts = [set |-> TRUE, now |-> TRUE, d |-> <<48>>], !.ex = [set |-> TRUE, abs |-> FALSE, d |-> <<49>>]])

\* ---- validation: what one signature's line is to say.
\* class: ok | temperror | fail | permerror | any;  seen: the field was admitted, so d and s show;
\* soft: may the line be marked SOFT (may), must it (must)
TableAnswer(tab, q) == IF q \in DOMAIN tab THEN tab[q] ELSE [ok |-> FALSE, txt |-> ""]
LineFor(file, h, own, body, tab, now) ==
  LET s == ParseSig(h[own].text, h[own].voff, LName(h[own]), now)
      L(class, may, must) == [file |-> file, seen |-> s.ok, d |-> IF s.ok THEN s.v.d ELSE <<>>, s |-> IF s.ok THEN s.v.s ELSE <<>>, class |-> class, may |-> may, must |-> must]
  IN IF ~s.ok THEN L("permerror", FALSE, FALSE) ELSE
  LET a == TableAnswer(tab, ToHex(KeyQuery(s.v)))
      k == ParseKey(Hex(a.txt))
      bv == BodyVerdict(s.v, body)
      testing == a.ok /\ k.ok /\ k.v.testing
      unclear == a.ok /\ a.txt # "" /\ ~k.ok
  IN IF bv.r = "any" THEN L("any", TRUE, FALSE)
     ELSE IF bv.r # "ok" THEN L(bv.ar, testing \/ unclear, FALSE)         \* the key need not have been looked up
     ELSE IF ~a.ok THEN L("temperror", FALSE, FALSE)
     ELSE IF a.txt = "" THEN L("permerror", FALSE, FALSE)
     ELSE IF ~k.ok THEN L(IF KeyOpen(Hex(a.txt)) THEN "any" ELSE "permerror", TRUE, FALSE)
     ELSE LET v == SigVerdict(h, own, s.v, k.v) IN
          IF v.r = "any" THEN L("any", TRUE, FALSE)
          ELSE L(IF v.r = "ok" THEN "ok" ELSE v.ar, testing, testing)
FileLines(f, type, tab, now) ==
  LET m == Hex(f.data) p == TLCEval(ParseMail(m)) c == Collected(type, p.hdrs) b == TLCEval(BodyOf(m, p)) IN
  [k \in 1..Len(c) |-> LineFor(B(f.name), p.hdrs, c[k], b, tab, now)] \o <<>>
ToolLines(a, fs, tab, now) ==
  FoldLeft(LAMBDA l, n : LET i == FileNamed(fs, n) IN
             IF i = 0 THEN l ELSE l \o FileLines(fs[i], IF a.arc THEN "arc" ELSE "dkim", tab, now), <<>>, a.files)

\* ---- the printed text
Starts(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
Within(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
Bracket(t) == <<91>> \o t \o <<93>>
\* lines; what starts with white space belongs to the line before (it quotes a folded tag)
RECURSIVE CutLines(_)
CutLines(s) == IF s = <<>> THEN <<>> ELSE
  LET e == Find(s, LF, 1) IN IF e = 0 THEN <<s>> ELSE <<SubSeq(s, 1, e - 1)>> \o CutLines(SubSeq(s, e + 1, Len(s)))
Printed(s) == FoldLeft(LAMBDA l, x : IF l # <<>> /\ x # <<>> /\ IsWsp(x[1]) THEN Append(Front(l), Last(l) \o <<LF>> \o x) ELSE Append(l, x), <<>>, CutLines(s))
LineOk(t, x) ==
  LET id == Bracket(x.file) \o Bracket(x.d) \o Bracket(x.s)
      class == <<40>> \o B(x.class) \o <<41>>
  IN CASE x.class = "any" -> Starts(t, Bracket(x.file))
       [] x.class = "ok" -> t = id \o B(" OK")
       [] x.class = "temperror" -> Starts(t, id \o class \o B(" TEMPERR:"))
       [] OTHER -> IF x.seen THEN \/ ~x.must /\ Starts(t, id \o class \o B(" = "))
                                  \/ x.may /\ Starts(t, id \o class \o B(" SOFT:"))
                   ELSE Starts(t, Bracket(x.file) \o <<91>>) /\ Within(t, <<93>> \o class \o B(" = "))
\* what the whole run must come to, and whether it did
ToolExpect(av, fs, tab, now) ==
  LET a == Args(av) k == FileNamed(fs, a.keyfile) m == IF a.files = <<>> THEN 0 ELSE FileNamed(fs, a.files[1]) IN
  IF a.end # "" THEN [r |-> a.end]
  ELSE IF a.validate THEN [r |-> "lines", l |-> ToolLines(a, fs, tab, now)]
  ELSE IF k = 0 \/ m = 0 THEN [r |-> "failed"]
  ELSE LET t == Hex(fs[m].data)
           p == TLCEval(ParseMail(t))
           b == TLCEval(BodyOf(t, p))
           o == ToolOptions(a, fs[k])
       IN IF ~o.ok THEN [r |-> "failed"] ELSE IF MustFail(p.hdrs, b, o.v) THEN [r |-> "failed"]
          ELSE [r |-> "signed", hdrs |-> p.hdrs, body |-> b, opt |-> o.v]
ToolOk(x, out, err, code, now) ==
  CASE x.r = "help"   -> code = 0 /\ out # <<>>
    [] x.r = "usage"  -> code \in 1..97 /\ out = <<>> /\ err # <<>>
    [] x.r = "failed" -> code \in 1..97 /\ out = <<>> /\ err # <<>>
    [] x.r = "signed" -> code = 0 /\ EndsWith(out, CRLF) /\ EmittedComplaints(SubSeq(out, 1, Len(out) - 2), x.hdrs, x.body, x.opt, now) = {}
    [] x.r = "lines"  -> LET l == Printed(out) IN code \in 0..97 /\ Len(l) = Len(x.l) /\ \A i \in 1..Len(l) : LineOk(l[i], x.l[i])
=============================================================================
