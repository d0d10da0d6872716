"""Generator of signing configurations and of the sessions that sign and verify."""
from forgegen import *

def keydata(kid, form):
    """a private key as handed to SetPrivateKey"""
    k = KEYS.get(kid, {})
    if form in JUNKFORMS: return junk_key(kid, form)
    if form in ("pem", "pem8"): return k[form].encode()
    if form == "der": return b64(uh(k["pkcs1"])).encode()
    if form == "der8": return b64(uh(KEYPKCS8(kid))).encode()
    seed = uh(k["seed"])
    sk = seed + uh(k["pub"])
    return {"seed": seed, "sk": sk, "b64seed": b64(seed).encode(), "b64sk": b64(sk).encode()}[form]
JUNKFORMS = ["cutpem", "cutder", "altder", "short", "long", "b64short", "b64long", "b64sk63", "b64sk65", "b64sk128", "sk63", "sk65", "empty", "text", "pub", "pubder", "dashes", "edpem", "edder", "ecpem", "rawder", "mixsk", "b64mixsk"]
def pem_of(der, name): 
    t = b64(der)
    return (f"-----BEGIN {name}-----\n" + "\n".join(t[i:i + 64] for i in range(0, len(t), 64)) + f"\n-----END {name}-----\n").encode()
def junk_key(kid, form):
    """what is no private key at all, made from a key where the form needs one"""
    k = KEYS.get(kid, {})
    rsa = "pkcs1" in k
    der = uh(k["pkcs1"]) if rsa else bytes.fromhex("302e020100300506032b657004220420") + uh(k.get("seed", KEYS["ed_a"]["seed"]))
    seed = uh(k.get("seed", KEYS["ed_a"]["seed"]))
    if form == "cutpem": return pem_of(der, "RSA PRIVATE KEY")[:-80]
    if form == "cutder": return b64(der[:len(der) * 2 // 3] if rsa else der[:40]).encode()
    if form == "altder": return b64(b"\x31" + der[1:]).encode()
    if form == "rawder": return der
    if form == "edpem": return pem_of(bytes.fromhex("302e020100300506032b657004220420") + seed, "PRIVATE KEY")
    if form == "edder": return b64(bytes.fromhex("302e020100300506032b657004220420") + seed).encode()
    if form == "ecpem": return KEYS["ec"]["pem"].encode()
    if form == "pub": return pem_of(uh(k.get("spki", KEYS["rsa_a"]["spki"])), "PUBLIC KEY")
    if form == "pubder": return b64(uh(k.get("spki", KEYS["rsa_a"]["spki"]))).encode()
    if form == "dashes": return b"-----"
    if form == "empty": return b""
    if form == "text": return b"no key at all"
    sk = seed + uh(k.get("pub", KEYS["ed_a"]["pub"]))
    mix = seed + uh(KEYS["ed_b" if kid != "ed_b" else "ed_a"]["pub"])
    return {"mixsk": mix, "b64mixsk": b64(mix).encode(), "short": seed[:31], "long": seed + b"x", "b64short": b64(seed[:31]).encode(), "b64long": b64(seed + b"x").encode(), "sk63": sk[:63], "b64sk63": b64(sk[:63]).encode(), "b64sk65": b64(sk + b"x").encode(), "b64sk128": b64(sk + sk).encode(), "sk65": sk + b"x"}[form]
def KEYPKCS8(kid):
    return base64.b64decode("".join(x for x in KEYS[kid]["pem8"].splitlines() if "-----" not in x)).hex()
def opt(f, n="o", **w): return {"c": "opt", "n": n, "f": f, "i": 1, **w}
def setkey(kid, form, i=1, n="o"): return opt("key", n, i=i, kid=kid, form=form, data=hx(keydata(kid, form)))
RSAFORMS, EDFORMS = ["pem", "pem8", "der"], ["seed", "sk", "b64seed", "b64sk"]
SIGNDOM = ["example.com", "Example.ORG", "a.b.c.example.net", "x", "d-1.net", "x" * 63 + ".com"]
SIGNSEL = ["s", "S2", "2026.mail", "a-b", "y" * 63]

def somekey(r, alg=None):
    alg = alg or r.choice(["rsa", "rsa", "ed25519"])
    kid = r.choice((["rsa_a"] * 6 + ["rsa_b"] * 3 + ["rsa_c"] * 2 + ["rsa_d", "rsa_e"] + [r.choice(WIDTHS)]) if alg == "rsa" else ED * 3 + ["ed_n", "ed_p", "ed_m"])
    return alg, kid, r.choice(RSAFORMS if alg == "rsa" else EDFORMS)

class Plan:
    """one signing configuration: the calls that set it, and what verification needs to know"""
    def __init__(s, r, fields, n="o", **w):
        s.n, s.ev, s.sigs = n, [{"c": "optnew", "n": n}], []
        o = lambda f, **k: s.ev.append(opt(f, n, **k))
        s.arc = w.get("arc", r.choice([0] * 5 + [1, 2, 9, 50, r.randrange(1, 51)]))
        count = w.get("count", r.choice([1, 1, 1, 2, 3]))
        s.digest = w.get("digest", r.choice(["sha256", "sha256", "sha1"]))
        todo = []
        for i in range(1, count + 1):
            alg, kid, form = somekey(r, "rsa" if s.digest == "sha1" else w.get("alg"))
            if i == 1 and "kid" in w: alg, kid, form = "rsa", w["kid"], r.choice(RSAFORMS)
            d, sel = w.get("d", r.choice(SIGNDOM)), r.choice(SIGNSEL)
            s.sigs.append((alg, kid, d, sel))
            if i > 1: o("addsig")
            part = [lambda i=i, alg=alg, kid=kid, form=form: (o("alg", i=i, a=alg), o("key", i=i, kid=kid, form=form, data=hx(keydata(kid, form)))),
                    lambda i=i, d=d: o("domain", i=i, data=hx(d)), lambda i=i, sel=sel: o("selector", i=i, data=hx(sel))]
            if r.randrange(4) == 0 and i > 1: todo += part
            else:
                r.shuffle(part)
                for p in part: p()
        s.ch, s.cb = w.get("ch", r.choice(["simple", "relaxed"])), w.get("cb", r.choice(["simple", "relaxed"]))
        if s.digest != "sha256" or r.randrange(2): todo.append(lambda: o("digest", a=s.digest))
        if s.ch != "simple" or r.randrange(2): todo.append(lambda: o("ch", a=s.ch))
        if s.cb != "simple" or r.randrange(2): todo.append(lambda: o("cb", a=s.cb))
        if s.arc: todo.append(lambda: o("arc", d=str(s.arc)))
        # header selection, always with From
        have = sorted({fname(f).decode("latin-1") for f in fields if b":" in f})
        k = w.get("heads", r.randrange(6))
        if k == 0: pass                                             # the default list
        elif k == 1: todo.append(lambda: o("headers", l=[]))        # everything
        else:
            hs = [case(r, x) for x in ["From"] + [x for x in have if r.randrange(2) and x and all(33 <= ord(q) <= 126 for q in x)] + r.sample(["X-None", "Subject", "To"], r.randrange(3))]
            r.shuffle(hs)
            if k == 2: todo.append(lambda: (o("headers", l=[hx(x) for x in hs[:1]]), o("addh", l=[hx(x) for x in hs[1:]] + [hx("From")])))
            elif k == 3: todo.append(lambda: (o("headers", l=[hx(x) for x in hs + ["Kill", "to"]]), o("delh", l=[hx("KILL")])))
            else: todo.append(lambda: o("headers", l=[hx(x) for x in hs]))
        s.over = []
        if w.get("over", r.randrange(3) == 0):
            s.over = [case(r, x) for x in r.choices(["From", "To", "Subject", "X-None", "X-A", "Reply-To", "A" * 30], k=r.choice([1, 2, 5, 30]))]
            if count == 1 and r.randrange(6) == 0: s.over.append("ARC-Message-Signature" if s.arc else "DKIM-Signature")    # itself never counts
            todo.append(lambda: o("oversign", l=[hx(x) for x in s.over]))
        s.limit = w.get("limit", r.choice([None, None, None, 0, 1, 2, 10]))
        if s.limit is not None: todo.append(lambda: o("limit", d=str(s.limit)))
        s.now = w.get("now", 1700000000)
        ts, x = w.get("ts", r.randrange(3) == 0), w.get("x", r.choice([None, None, 0, 1, 3600, 99999999999]))
        rel = x is not None and r.randrange(2) == 0
        if ts: todo.append(lambda: o("ts", d=str(r.choice([-1, s.now, s.now + 5] if rel else [-1, s.now - 5, s.now, 0, 4294967296, 1]))))
        if x is not None: todo.append(lambda: o("ex", abs=False, d=str(x)) if rel else o("ex", abs=True, d=str(s.now + x)))
        s.ident = None
        if w.get("ident", r.randrange(3) == 0):
            d = s.sigs[0][2]
            if len({x[2].lower() for x in s.sigs}) == 1:
                s.ident = r.choice(["@" + d, "joe@" + d, "Joe;=Doe @" + d, "\x00\xff\r\n=3D_@" + d, "a@sub." + d, "a@X." + d.swapcase(), "b" * 200 + "@" + d])
                todo.append(lambda: o("ident", data=hx(s.ident)))
        r.shuffle(todo)
        for t in todo: t()
    def table(s, r, plain=False):
        seen = {}
        for alg, kid, d, sel in s.sigs: seen.setdefault((sel + "._domainkey." + d.lower()), kid)
        return table([(q, True, keyrec(r, kid, plain=plain)) for q, kid in seen.items()])
    def unique(s):
        """one key per query"""
        m = {}
        return all(m.setdefault((d.lower(), sel), kid) == kid for _, kid, d, sel in s.sigs)

def signing(r, plan, data, claims=True, verify_too=True, g="g", signed_before=0, getopts=None):
    """sign, then verify every emitted signature on the message they were put in front of"""
    ev = [{"c": "now", "d": str(plan.now)}] + plan.ev
    if r.randrange(3) == 0 if getopts is None else getopts: ev.append({"c": "optget", "n": plan.n})
    ev.append({"c": "signer", "g": g, "data": hx(data), **stream(r)})
    ev.append({"c": "sign", "g": g, "n": plan.n})
    if not verify_too: return ev
    ev.append(plan.table(r))
    ev.append({"c": "val", "v": "v", "type": "arc" if plan.arc else "dkim", "last": True, "custom": bool(r.randrange(3)), **stream(r)})
    for k in range(1, len(plan.sigs) + 1):
        three = [{"c": "getsig", "v": "v", "k": k, "s": f"s{k}"}, {"c": "getkey", "v": "v", "s": f"s{k}", "p": f"p{k}"}, {"c": "check", "v": "v", "k": k, "s": f"s{k}", "p": f"p{k}"}]
        if claims:
            for e, x in zip(three, (["ok", "noobj"], ["ok", "any"], ["ok", "noobj"])): e["claim"] = x
        ev += three
    return ev
def sign_message(r, size=None, signed=True):
    """a message to sign: any legal and many an odd layout, perhaps signed before"""
    k = r.randrange(8)
    if k < 5: fs, b = safe_message(r, size)
    else:
        fs, _, b = message(r, size)
        fs = [crlf(f) for f in fs]
    if signed and r.randrange(5) == 0:
        fs.insert(r.randrange(len(fs) + 1), r.choice([b"DKIM-Signature: v=1; a=b", b"ARC-Message-Signature: i=1; b=x", b"dkim-signature: old"]))
    if r.randrange(6) == 0: fs.insert(r.randrange(len(fs) + 1), r.choice([b"X;Y: semi", b"\xc3\xa9t\xc3\xa9: z", b"X\r\n Y: folded name", b"A B\tC: gaps", b": none", b"no colon here", b"X\x01: ctl", b"q" * 90 + b": long"]))
    eol = loose_eol(r)
    b = b.replace(b"\r\n", b"\n") if eol == b"\n" else b
    m = glue(fs, b, eol)
    if r.randrange(10) == 0: m = glue(fs, b"", eol)
    if r.randrange(12) == 0: m = b"".join(f.replace(b"\r\n", eol) + eol for f in fs)     # no empty line at all
    return fs, m
def loose_eol(r): return r.choice([b"\r\n", b"\r\n", b"\r\n", b"\n"])
