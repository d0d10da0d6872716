-------------------------------- MODULE Api ---------------------------------
(* The library as one state machine: its objects, and one transition per     *)
(* API call.  Step(st, e) is the state after call e and whether the observed *)
(* outcome e.o is one the specification allows; exp says what was expected.  *)
(*   vals, sigs, keys, opts, signers: named objects;  now: the clock;        *)
(*   table: what the resolver answers;  made: which text was created from    *)
(*   which message, options and time.                                        *)
EXTENDS Tool, AddrList

NoObj == [kind |-> "none"]
ApiInit == [vals |-> <<>>, sigs |-> <<>>, keys |-> <<>>, opts |-> <<>>, signers |-> <<>>,
            now |-> B("1700000000"), table |-> <<>>, made |-> <<>>]
Put(f, k, v) == (k :> v) @@ f
Get(f, k)    == IF k \in DOMAIN f THEN f[k] ELSE NoObj

Res(st, ok, exp) == [st |-> st, ok |-> ok, exp |-> exp]
\* observed class o.r (and result class o.ar of an error) against an expected class
ClassOk(o, v) == v.r = "any" \/ (o.r = v.r /\ (v.r = "ok" \/ o.ar = v.ar))
SetOf(l) == {l[k] : k \in 1..Len(l)}
HexSeq(l) == [k \in 1..Len(l) |-> ToHex(l[k])] \o <<>>
\* an octet-valued result: ok with out, or a permanent error
OutOk(o, x) == IF x.ok THEN o.r = "ok" /\ o.out = ToHex(x.v) ELSE o.r = "perm"
OutExp(x) == IF x.ok THEN [r |-> "ok", out |-> ToHex(x.v)] ELSE [r |-> "perm", out |-> ""]
ListExp(x) == IF x.ok THEN [r |-> "ok", out |-> HexSeq(x.v)] ELSE [r |-> "perm", out |-> <<>>]
ListOk(o, x) == IF x.ok THEN o.r = "ok" /\ o.out = HexSeq(x.v) ELSE o.r = "perm"

Limit(e) == [set |-> e.lset, d |-> B(e.ld), n |-> SmallNum(B(e.ld))]
SigView(s) == [d |-> ToHex(s.d), s |-> ToHex(s.s), alg |-> s.alg, hash |-> s.hash, ch |-> s.ch, cb |-> s.cb,
               h |-> HexSeq(s.h), local |-> ToHex(s.local), mdom |-> ToHex(s.mdom),
               lset |-> s.l.set, l |-> ToHex(NormDec(s.l.d)), arc |-> s.arc, inst |-> s.inst]
SigViewOk(o, s) ==
  LET v == SigView(s) IN
  /\ \A f \in DOMAIN v : (f = "l" /\ ~s.l.set) \/ (f = "mdom" /\ s.arc) \/ (f = "local" /\ s.arc) \/ o[f] = v[f]
  /\ s.b.ok => o.b = ToHex(s.b.v)
  /\ s.bh.ok => o.bh = ToHex(s.bh.v)
KeyViewOk(o, k) == /\ o.type = k.type /\ o.key = ToHex(k.key) /\ o.soft = k.testing
                   /\ (IF Len(o.hashes) = 0 THEN {"sha1", "sha256"} ELSE SetOf(o.hashes)) = k.hashes
                   /\ o.flags = HexSeq(k.flags)
                   /\ (k.mail = "both" \/ o.mail = (k.mail = "named"))
KeyView(k) == [type |-> k.type, key |-> ToHex(k.key), soft |-> k.testing, hashes |-> k.hashes, flags |-> HexSeq(k.flags), mail |-> k.mail]

\* ---- stateless calls ----
CanonBodyCall(st, e) ==
  LET full == BodyLocal(e.m, IF "nobody" \in DOMAIN e THEN <<>> ELSE Hex(e.data))
      x == [r |-> "ok", out |-> ToHex(BodyLimited(full, Limit(e))), fits |-> LimitFits(full, Limit(e))]
  IN Res(st, e.o.r = x.r /\ e.o.out = x.out /\ e.o.fits = x.fits, x)
CanonHdrCall(st, e) ==      \* nothing is promised about text no parser delivers
  LET f == Hex(e.data) x == HeaderLocal(e.m, f) IN
  IF FieldShaped(f) THEN Res(st, OutOk(e.o, x), OutExp(x)) ELSE Res(st, e.o.r \in {"ok", "perm"}, [r |-> "any", out |-> ""])
MailCall(st, e) ==
  LET p == ParseMail(Hex(e.data))
      x == [r |-> "ok", body |-> p.body,
            h |-> [i \in 1..Len(p.hdrs) |-> [t |-> ToHex(p.hdrs[i].text), n |-> ToHex(p.hdrs[i].name), v |-> p.hdrs[i].voff]] \o <<>>]
  IN Res(st, e.o.r = "ok" /\ e.o.body = x.body /\ e.o.h = x.h, x)
TagsCall(st, e) ==
  LET p == ParseTags(Hex(e.data))
      view == IF p.ok THEN {[n |-> ToHex(p.v[i].n), v |-> ToHex(p.v[i].v),
                             o |-> IF p.v[i].v = <<>> THEN -1 ELSE p.v[i].off] : i \in 1..Len(p.v)} ELSE {}
  IN Res(st, IF p.ok THEN e.o.r = "ok" /\ SetOf(e.o.t) = view /\ Len(e.o.t) = Cardinality(view)
             ELSE e.o.r = "perm", [r |-> IF p.ok THEN "ok" ELSE "perm", t |-> view])
FieldOf(text) == ParseMail(text \o CRLF \o CRLF).hdrs[1]
\* an object named in the call is emptied first, and left holding nothing of a message
Spoil(st, e) == IF e.c = "psig" /\ "s" \in DOMAIN e THEN [st EXCEPT !.sigs = Put(@, e.s, [kind |-> "spoiled"])]
                ELSE IF e.c = "pkey" /\ "p" \in DOMAIN e THEN [st EXCEPT !.keys = Put(@, e.p, [kind |-> "spoiled"])] ELSE st
PsigCall(st, e) ==
  LET f == FieldOf(Hex(e.data))
      s == ParseSig(f.text, f.voff, LName(f), st.now)
  IN Res(Spoil(st, e), IF s.ok THEN e.o.r = "ok" /\ SigViewOk(e.o, s.v) ELSE e.o.r = "perm" /\ e.o.ar = "permerror",
         IF s.ok THEN [r |-> "ok", v |-> SigView(s.v)] ELSE [r |-> "perm", v |-> NoObj])
PkeyCall(st, e) ==
  LET t == Hex(e.data) k == ParseKey(t)
  IN Res(Spoil(st, e), IF k.ok THEN e.o.r = "ok" /\ KeyViewOk(e.o, k.v)
             ELSE IF KeyOpen(t) THEN e.o.r \in {"ok", "perm"}
             ELSE e.o.r = "perm" /\ e.o.ar = "permerror",
         IF k.ok THEN [r |-> "ok", v |-> KeyView(k.v)] ELSE [r |-> "perm", v |-> NoObj])
B64DecCall(st, e) == LET x == B64Decode(Hex(e.data)) IN
  Res(st, IF x.ok THEN OutOk(e.o, x) ELSE e.o.r = "ok", OutExp(x))
EwCall(st, e) == LET t == Hex(e.data) x == EwDecode(t) IN
  IF EwOpen(t) THEN Res(st, e.o.r \in {"ok", "perm"}, [r |-> "any", out |-> ""]) ELSE Res(st, OutOk(e.o, x), OutExp(x))
WsCall(st, e) ==
  LET x == ReadWs(e.kind, Hex(e.data), e.at + 1)
      out == IF x.err THEN <<>> ELSE SubSeq(Hex(e.data), e.at + 1, e.at + x.n)
  IN Res(st, IF x.err THEN e.o.r = "perm"
             ELSE e.o.r = "ok" /\ e.o.out = ToHex(out) /\ e.o.pos = e.at + x.n,
         [r |-> IF x.err THEN "perm" ELSE "ok", out |-> ToHex(out), pos |-> e.at + x.n])
DnsCall(st, e) ==
  LET x == Lookup(e.herr, Hex(e.data)) IN
  Res(st, CASE x.r = "txt" -> e.o.r = "ok" /\ e.o.found /\ e.o.out = ToHex(x.v)
            [] x.r = "fail" -> e.o.r = "ok" /\ ~e.o.found
            [] OTHER -> e.o.r = "ok",
      [r |-> x.r, out |-> ToHex(x.v)])
Stateless == {"canonbody", "canonhdr", "mail", "tags", "psig", "pkey", "qpdec", "qpenc", "b64enc", "b64dec",
              "ew", "vlist", "ws", "addr", "dns", "domain"}
StatelessCall(st, e) ==
  CASE e.c = "canonbody" -> CanonBodyCall(st, e)
    [] e.c = "canonhdr" -> CanonHdrCall(st, e)
    [] e.c = "mail" -> MailCall(st, e)
    [] e.c = "tags" -> TagsCall(st, e)
    [] e.c = "psig" -> PsigCall(st, e)
    [] e.c = "pkey" -> PkeyCall(st, e)
    [] e.c = "qpdec" -> LET x == QpLocal(Hex(e.data), e.w) IN Res(st, OutOk(e.o, x), OutExp(x))
    [] e.c = "qpenc" -> LET x == Ok(QpEncode(Hex(e.data))) IN Res(st, OutOk(e.o, x), OutExp(x))
    [] e.c = "b64enc" -> LET x == Ok(B64Encode(Hex(e.data))) IN Res(st, OutOk(e.o, x), OutExp(x))
    [] e.c = "b64dec" -> B64DecCall(st, e)
    [] e.c = "ew" -> EwCall(st, e)
    [] e.c = "vlist" -> LET x == ValueList(Hex(e.data)) IN Res(st, ListOk(e.o, x), ListExp(x))
    [] e.c = "ws" -> WsCall(st, e)
    [] e.c = "addr" -> LET x == ParseAddr(Hex(e.data)) IN Res(st, ListOk(e.o, x), ListExp(x))
    [] e.c = "dns" -> DnsCall(st, e)
    [] e.c = "domain" -> LET x == DomainOk(Hex(e.data)) IN Res(st, e.o.r = "ok" /\ e.o.valid = x, [r |-> "ok", valid |-> x])

\* ---- verification ----
ValCall(st, e) ==
  LET m == Hex(e.data)
      p == ParseMail(m)
      v == [hdrs |-> p.hdrs, body |-> BodyOf(m, p), sigs |-> Collected(e.type, p.hdrs)]
      x == [k \in 1..Len(v.sigs) |-> ToHex(p.hdrs[v.sigs[k]].text)] \o <<>>
  IN Res([st EXCEPT !.vals = Put(@, e.v, v)], e.o.r = "ok" /\ e.o.sigs = x, [r |-> "ok", sigs |-> x])
\* a signature object is fresh, parsed (with the record), or spoiled by a failed parse
SigObj(st, n) == LET s == Get(st.sigs, n) IN IF s = NoObj THEN [kind |-> "fresh"] ELSE s
HasSig(st, e) == e.v \in DOMAIN st.vals /\ e.k <= Len(st.vals[e.v].sigs)
Missing(st, e) == Res(st, e.o.r = "noobj", [r |-> "noobj", ar |-> ""])
GetSigCall(st, e) ==
  IF ~HasSig(st, e) THEN Missing(st, e) ELSE
  LET v == st.vals[e.v]
      i == v.sigs[e.k]
      f == v.hdrs[i]
      old == SigObj(st, e.s)
      s == ParseSig(f.text, f.voff, LName(f), st.now)
      verdict == IF s.ok THEN BodyVerdict(s.v, v.body) ELSE RPermerror
      new == IF s.ok THEN [kind |-> "parsed", rec |-> s.v] ELSE [kind |-> "spoiled"]
  IN IF old.kind # "fresh" THEN Res([st EXCEPT !.sigs = Put(@, e.s, [kind |-> "spoiled"])], TRUE, RAny)
     ELSE Res([st EXCEPT !.sigs = Put(@, e.s, new)],
              ClassOk(e.o, verdict) /\ ((s.ok /\ e.o.r = "ok") => SigViewOk(e.o, s.v)), verdict)
BodyHashCall(st, e) ==
  LET s == SigObj(st, e.s) v == st.vals[e.v] IN
  IF s.kind # "parsed" THEN Res(st, TRUE, RAny)
  ELSE LET x == BodyVerdict(s.rec, v.body) IN Res(st, ClassOk(e.o, x), x)
Answer(st, q) == IF q \in DOMAIN st.table THEN st.table[q] ELSE [ok |-> FALSE, txt |-> ""]
GetKeyCall(st, e) ==
  LET s == SigObj(st, e.s)
      old == Get(st.keys, e.p) IN
  IF s.kind # "parsed" \/ old # NoObj THEN Res([st EXCEPT !.keys = Put(@, e.p, [kind |-> "spoiled"])], TRUE, RAny)
  ELSE LET q == KeyQuery(s.rec)
           a == Answer(st, ToHex(q))
           k == ParseKey(Hex(a.txt))
           x == IF ~a.ok THEN RTemp ELSE IF a.txt = "" THEN RPermerror
                ELSE IF k.ok THEN RPass ELSE IF KeyOpen(Hex(a.txt)) THEN RAny ELSE RPermerror
           new == IF a.ok /\ a.txt # "" /\ k.ok THEN [kind |-> "parsed", rec |-> k.v] ELSE [kind |-> "spoiled"]
       IN Res([st EXCEPT !.keys = Put(@, e.p, new)],
              ClassOk(e.o, x) /\ ((k.ok /\ e.o.r = "ok") => KeyViewOk(e.o, k.v)) /\ e.o.q = <<ToHex(q)>>, [r |-> x.r, ar |-> x.ar, q |-> <<ToHex(q)>>])
CheckCall(st, e) ==
  IF ~HasSig(st, e) THEN Missing(st, e) ELSE
  LET s == SigObj(st, e.s) k == Get(st.keys, e.p) v == st.vals[e.v] IN
  IF s.kind # "parsed" \/ k = NoObj \/ k.kind # "parsed" THEN Res(st, TRUE, RAny)
  ELSE LET x == SigVerdict(v.hdrs, v.sigs[e.k], s.rec, k.rec) IN Res(st, ClassOk(e.o, x), x)

\* ---- signing ----
SignCall(st, e) ==
  LET g == st.signers[e.g]
      o == st.opts[e.n]
      id == <<g.m, o, st.now>>
      must == MustFail(g.hdrs, g.body, o)
      bad == IF must \/ e.o.r # "ok" THEN {} ELSE EmittedComplaints(Hex(e.o.out), g.hdrs, g.body, o, st.now)
      again == must \/ e.o.r # "ok" \/ id \notin DOMAIN st.made \/ st.made[id] = e.o.out
  IN Res(IF must \/ e.o.r # "ok" THEN st ELSE [st EXCEPT !.made = Put(@, id, e.o.out)],
         IF must THEN e.o.r = "perm" ELSE e.o.r = "ok" /\ bad = {} /\ again,
         [r |-> IF must THEN "perm" ELSE "ok", bad |-> IF again THEN bad ELSE bad \cup {"not as before"}])
OptGetCall(st, e) ==
  LET o == st.opts[e.n] v == OptView(o)
      hs == {ToHex(x) : x \in LowerSet(o.headers)}
      os == HexSeq([k \in 1..Len(o.oversign) |-> Lower(o.oversign[k])])
  IN Res(st, /\ \A f \in DOMAIN v : e.o[f] = v[f]
             /\ {ToHex(Lower(Hex(e.o.headers[k]))) : k \in 1..Len(e.o.headers)} = hs
             /\ [k \in 1..Len(e.o.oversign) |-> ToHex(Lower(Hex(e.o.oversign[k])))] \o <<>> = os
             /\ (o.limit.set => NormDec(B(e.o.l)) = NormDec(o.limit.d))
             /\ (o.ts.set => (IF o.ts.now THEN e.o.t = "-1" ELSE NormDec(B(e.o.t)) = NormDec(o.ts.d)))
             /\ (o.ex.set => NormDec(B(e.o.x)) = NormDec(o.ex.d) /\ e.o.xabs = o.ex.abs),
         [v |-> v, headers |-> hs, oversign |-> os])
\* ---- the tool
ToolCall(st, e) ==
  LET x == ToolExpect([k \in 1..Len(e.argv) |-> Hex(e.argv[k])] \o <<>>, e.files, st.table, st.now) IN
  Res(st, ToolOk(x, Hex(e.o.out), Hex(e.o.err), e.o.code, st.now),
      IF x.r = "lines" THEN [r |-> x.r, l |-> [k \in 1..Len(x.l) |-> [x.l[k] EXCEPT !.file = ToHex(@), !.d = ToHex(@), !.s = ToHex(@)]] \o <<>>] ELSE [r |-> x.r])

Step(st, e) ==
  IF e.c \in Stateless THEN StatelessCall(st, e)
  ELSE CASE e.c = "now"       -> Res([st EXCEPT !.now = B(e.d)], TRUE, NoObj)
         [] e.c = "table"     -> Res([st EXCEPT !.table = [q \in {e.t[i].q : i \in 1..Len(e.t)} |->
                                       LET i == CHOOSE i \in 1..Len(e.t) : e.t[i].q = q IN
                                       [ok |-> e.t[i].ok, txt |-> e.t[i].txt]]], TRUE, NoObj)
         [] e.c = "errno"     -> Res(st, TRUE, NoObj)
         \* the locale and whatever else the application has set: no result depends on it
         [] e.c = "ambient"   -> Res(st, TRUE, NoObj)
         [] e.c = "val"       -> ValCall(st, e)
         [] e.c = "getsig"    -> GetSigCall(st, e)
         [] e.c = "bodyhash"  -> BodyHashCall(st, e)
         [] e.c = "sigreset"  -> Res([st EXCEPT !.sigs = Put(@, e.s, [kind |-> "fresh"])], TRUE, NoObj)
         [] e.c = "keyreset"  -> Res([st EXCEPT !.keys = Put(@, e.p, NoObj)], TRUE, NoObj)
         [] e.c = "getkey"    -> GetKeyCall(st, e)
         [] e.c = "check"     -> CheckCall(st, e)
         [] e.c = "optnew"    -> Res([st EXCEPT !.opts = Put(@, e.n, NewOptions)], TRUE, NoObj)
         [] e.c = "opt"       -> LET x == OptSet(st.opts[e.n], e) IN
                                 Res([st EXCEPT !.opts = Put(@, e.n, x.opt)], e.o.r = x.r, [r |-> x.r])
         [] e.c = "optget"    -> OptGetCall(st, e)
         [] e.c = "signer"    -> LET m == Hex(e.data) p == ParseMail(m) IN
                                 Res([st EXCEPT !.signers = Put(@, e.g, [m |-> e.data, hdrs |-> p.hdrs, body |-> BodyOf(m, p)])], TRUE, NoObj)
         [] e.c = "sign"      -> SignCall(st, e)
         [] e.c = "tool"      -> ToolCall(st, e)
=============================================================================
