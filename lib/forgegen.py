"""Generator of signed messages in random legal layouts, tolerated transit and
tampering.  No DKIM computation here: the specification signs (Forge.tla) and judges."""
from gen import *

def fws(r, some=False):
    if not some and r.randrange(3): return b""
    return r.choice([b" ", b" ", b"\t", b"\r\n ", b"\r\n\t", b"  ", b" \r\n \t", b"\t\r\n "])
DOMAINS = ["example.com", "Example.COM", "a.b.example.org", "x", "d-1.net", "MAIL.example.co"]
SELECTORS = ["s", "sel1", "2020.dkim", "S-2", "mixedCase"]
def b64part(r, name, n):
    k = r.randrange(4)
    at = [] if k == 0 else sorted(r.sample(range(1, n), r.choice([1, 1, 2, 4]))) if k < 3 else list(range(60, n, 60))
    return {"k": name, "lead": hx(fws(r)), "tail": hx(fws(r)), "at": at, "ws": [hx(fws(r, True)) for _ in at]}

def subdomain(r, d):
    """an identity somewhere under d"""
    return r.choice(["@", "joe@", "j=3Dx@"]) + r.choice([d + "." + d, "www." + d, d.split(".")[0] + "." + d, "x" * 60 + "." + d, "a.b.c.d.e." + d, "." + d, "-." + d, d.swapcase() + "." + d, "com." + d, "s._domainkey." + d, "1." + d])
OWN = ("dkim-signature", "arc-message-signature")
class Sig:
    """what a signature is to say"""
    def __init__(s, r, fields, /, **w):
        s.type = w.get("type", "dkim")
        s.kid = w.get("kid") or r.choice(["rsa_a"] * 8 + ["rsa_b", "rsa_c", "ed_a", "ed_b"] * 4 + ["rsa_d", "rsa_e", "ed_n", "ed_p"] + [r.choice(WIDTHS)])
        s.alg = "rsa" if s.kid.startswith("rsa") else "ed25519"
        s.hash = w.get("hash") or ("sha1" if s.alg == "rsa" and r.randrange(4) == 0 else "sha256")
        s.ch = w.get("ch") or r.choice(["simple", "relaxed"])
        s.cb = w.get("cb") or r.choice(["simple", "relaxed"])
        s.d = w.get("d") or r.choice(DOMAINS)
        s.s = w.get("s") or r.choice(SELECTORS)
        s.l = w.get("l", "?")
        if s.l == "?": s.l = r.choice([None] * 8 + [0, 0, 1, 1, 2, 2, 5, 10, 2**31, 2**32, 2**32 + 2, r.choice([65536, 2**31 + 1, 2**33 + 5, 2**62, 2**63 - 1])])
        s.inst = w.get("inst") or r.randrange(1, 51)
        s.now = w.get("now", 1700000000)
        s.x = w.get("x", "?")
        if s.x == "?": s.x = r.choice([None, None, None, s.now, s.now + 1, s.now + 86400, 99999999999])
        s.ident = w.get("ident", "?")
        if s.ident == "?":
            s.ident = r.choice([None, None, "@" + s.d, "joe@" + s.d.upper(), "j=3Dx@" + s.d, "a@sub." + s.d, "@x.y." + s.d.lower(), subdomain(r, s.d)]) if s.type == "dkim" else None
        s.names = w.get("names")
        if s.names is None:
            have = [f.split(b":")[0].strip().decode("latin-1") for f in fields if b":" in f]
            have = [n for n in have if n and all(33 <= ord(c) <= 126 and c not in ";:=" for c in n)]
            ns = [n for n in have if r.randrange(3)] + r.sample(["Absent", "To", "X-None", "Subject"], r.randrange(0, 3))
            if r.randrange(3) == 0 and have: ns += [r.choice(have)] * r.choice([1, 2])
            ns = [n for n in ns if n.lower() not in ("from", "dkim-signature", "arc-message-signature")]
            if r.randrange(8) == 0: ns += ["DKIM-Signature" if s.type == "dkim" else "ARC-Message-Signature"] * r.choice([1, 2])    # itself never counts
            nf = sum(1 for n in have if n.lower() == "from")
            ns += ["From"] * r.choice([1, max(1, nf), nf + 1])
            r.shuffle(ns)
            s.names = [case(r, n) for n in ns]
        s.unknown = w.get("unknown", r.randrange(3) == 0)
        s.plain = w.get("plain", False)
        s.lie = w.get("lie")
        s.query = s.s + "._domainkey." + s.d.lower()
    def draft(s, r, msg):
        W = (lambda: b"") if s.plain else (lambda: fws(r))
        lit = lambda b: {"k": "lit", "d": hx(b)}
        tags = [("a", s.alg + "-" + s.hash), ("d", s.d), ("s", s.s), ("h", None), ("bh", None), ("b", None)]
        if s.type == "dkim": tags.append(("v", "1"))
        else: tags.append(("i", str(s.inst)))
        if s.cb == "simple" and s.ch == "simple" and r.randrange(2): pass
        elif s.cb == "simple" and r.randrange(3) == 0: tags.append(("c", s.ch))
        else: tags.append(("c", s.ch + "/" + s.cb))
        if s.ident is not None: tags.append(("i", s.ident))
        if s.l is not None: tags.append(("l", r.choice(["", "", "00"]) + str(s.l)))
        if s.x is not None: tags.append(("x", str(s.x)))
        if r.randrange(3) == 0: tags.append(("t", r.choice(["1", str(s.now), str(s.now + 5000), "0"])))
        if r.randrange(4) == 0: tags.append(("q", "dns/txt"))
        if s.unknown: tags += r.sample([("z", "From:a=40b|To:c"), ("zz", ""), ("B", "notb"), ("bb", "b=;".replace(";", "")), ("r_1", "b=x"), ("V", "2"), ("A", "a b  c"), ("bhh", "=")], r.randrange(1, 4))
        tags += getattr(s, "more", [])
        r.shuffle(tags)
        if s.plain or r.randrange(2): tags.sort(key=lambda t: t[0] != "v")
        name = case(r, "DKIM-Signature" if s.type == "dkim" else "ARC-Message-Signature")
        parts = [lit(name.encode() + (b"" if s.plain or r.randrange(6) else r.choice([b" ", b"\t"])) + b":" + (b" " if s.plain else fws(r, r.randrange(4) > 0)))]
        for n, (k, v) in enumerate(tags):
            parts.append(lit(W() + k.encode() + W() + b"="))
            if k in ("b", "bh"):
                size = 28 if k == "bh" and s.hash == "sha1" else 44 if k == "bh" else (sigsize(s.kid) + 2) // 3 * 4
                parts.append(b64part(r, k, size) if not s.plain else {"k": k, "lead": "", "tail": "", "at": [], "ws": []})
            elif k == "h": parts.append(lit(W() + b":".join(W() + x.encode() + W() for x in s.names) + (b":" if not s.plain and r.randrange(12) == 0 else b"") + W()))
            else: parts.append(lit(W() + v.encode() + W()))
            if n + 1 < len(tags): parts.append(lit(b";"))
        if r.randrange(2): parts.append(lit(b";" + (W() if r.randrange(2) else b"")))
        return {"msg": hx(msg), "parts": parts, "alg": s.alg, "hash": s.hash, "ch": s.ch, "cb": s.cb, "lset": s.l is not None, "ld": str(s.l or 0),
                "h": [hx(x) for x in s.names], "kid": s.kid, **(s.lie or {})}
def bodylie(r, s):
    """a body hash that is not the body's"""
    size = 20 if s.hash == "sha1" else 32
    k = r.choice(["cut", "cut", "tail", "ext", "flip", "hash", "canon", "raw", "limit", "whole", "plain", "twice", "pair", "rev", "swap", "nul", "nul", "nul", "case", "case"])
    n = r.choice([0, 1, 2, 4, 8, 16, size // 2, size - 4, size - 1]) if k == "cut" else r.choice([1, 4, size // 2, size]) if k == "tail" else r.choice([1, 2, 12, 32]) if k == "ext" else r.randrange(size) if k in ("flip", "pair", "swap", "case") else 0
    if k == "limit": n = r.choice([0, 1, 5, 20] + ([s.l % 2**32 % 10**6, s.l % 2**31 % 10**6, s.l % 65536] * 3 if s.l else []))
    return {"hlie": k, "ln": n}
def nulbody(r, s):
    """a body whose hash has an octet 0 at its very beginning"""
    import hashlib
    n = r.randrange(10**6)
    while hashlib.new(s.hash, b"x%d\r\n" % n).digest()[r.choice([0, 0, 1])] != 0: n += 1
    return b"x%d\r\n" % n
def keylie(r, s):
    """a signature over something else, or octets that are no signature"""
    size = sigsize(s.kid)
    k = r.choice(["cut", "ext", "flip", "lead", "zero", "crlf", "hashed", "nothing", "other", "upward", "fewer"] + ["hash"] * (s.alg == "rsa"))
    return {"slie": k, "ln": r.choice([1, 32, size // 2, size - 1]) if k == "cut" else r.choice([1, 16, 64]) if k == "ext" else r.randrange(size)}
SURELIES = ("ext", "flip", "cut", "lead", "zero", "hashed", "nothing", "hash", "crlf")

def keyrec(r, kid, plain=False, h=None, s=None, t=None, extra=True):
    """a key record that allows what kid makes (h, s, t: the tag's value or None)"""
    W = (lambda: b"") if plain else (lambda: r.choice([b"", b"", b"", b" ", b"  ", b"\t", b"\r\n "]))
    k = KEYS[kid]
    rsa = kid.startswith("rsa")
    p = b64(uh(k["spki"] if rsa else k["pub"]))
    if not plain and r.randrange(3) == 0:
        at = r.randrange(1, len(p)); p = p[:at] + r.choice([" ", "\t", "\r\n "]) + p[at:]
    tags = [("p", p)]
    if not rsa or r.randrange(2): tags.append(("k", "rsa" if rsa else "ed25519"))
    if h is not None: tags.append(("h", h))
    if s is not None: tags.append(("s", s))
    if t is not None: tags.append(("t", t))
    if extra and not plain and r.randrange(3) == 0: tags += r.sample([("n", "a note"), ("g", "*"), ("x", ""), ("K", "dsa"), ("P", "")], 1)
    r.shuffle(tags)
    if r.randrange(3): tags.insert(0, ("v", "DKIM1"))
    out = b";".join(W() + n.encode() + W() + b"=" + W() + v.encode() + W() for n, v in tags)
    return out + (b";" + W() if r.randrange(2) else b"")

def table(entries):
    return {"c": "table", "t": [{"q": hx(q), "ok": ok, "txt": hx(t)} for q, ok, t in entries]}
def verify(data, type, n, tab, r, now=None, claims=None, v="v"):
    """a full verification of the n signatures of a message"""
    ev = [{"c": "now", "d": str(now)}] if now is not None else []
    ev.append(tab)
    ev.append({"c": "val", "v": v, "type": type, "data": hx(data), "custom": bool(r.randrange(3)), **stream(r)})
    for k in range(1, n + 1):
        ev += [{"c": "getsig", "v": v, "k": k, "s": f"s{k}"}, {"c": "getkey", "v": v, "s": f"s{k}", "p": f"p{k}"}, {"c": "check", "v": v, "k": k, "s": f"s{k}", "p": f"p{k}"}]
        if claims:
            for e, x in zip(ev[-3:], claims[k - 1]):
                if x: e["claim"] = x
    return ev

# ---- messages in parts: fields (folds as CRLF), body
def crlf(f): return f.replace(b"\r\n", b"\n").replace(b"\n", b"\r\n")
def glue(fields, body, eol=b"\r\n"):
    return b"".join(f.replace(b"\r\n", eol) + eol for f in fields) + eol + body
def fname(f): return f.split(b":")[0].strip().lower()

def safe_message(r, bodysize=None, names=None):
    """a message without line-end oddities in its header"""
    fs = [crlf(fieldline(r)) for _ in range(r.choice([0, 1, 3, 5, 8]))]
    for _ in range(r.choice([1, 1, 1, 2])): fs.insert(r.randrange(len(fs) + 1), crlf(fieldline(r, "From")))
    if r.randrange(3) == 0: fs.insert(r.randrange(len(fs) + 1), r.choice([b"Not-A-Field", b": nameless", b"X Y: two words", b"\xc3\xa9: 8bit"]))
    return fs, body(r, bodysize)

BIG = ["value", "folded", "blank", "many", "same", "absent", "body", "lines", "unsigned", "tag", "name"]
def big_message(r, kind, n):
    """a message with something in it of about n octets, and the names to sign"""
    fs, b = [b"From: a@b.x", b"Subject: s", b"To: t"], b"hello\r\nyou\r\n"
    names = ["From", "Subject", "To"]
    word = lambda: bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(r.randrange(1, 12)))
    def text(n, gaps):
        out = bytearray()
        while len(out) < n: out += word() + r.choice(gaps)
        return bytes(out[:n]).rstrip(b"\r\n\t ")
    if kind == "value": fs.insert(1, b"X-Long: " + text(n, [b" ", b"  ", b"\t"])); names.append("X-Long")
    elif kind == "folded": fs.insert(1, b"X-Long: " + text(n, [b" ", b"\r\n ", b"\r\n\t"]).replace(b"\r", b"\r\n").replace(b"\r\n\n", b"\r\n") + b" end"); names.append("X-Long")
    elif kind == "blank": fs.insert(1, b"X-Long: a" + b" " * (n // 2) + b"b" + b"\t" * (n // 2) + b"c"); names.append("X-Long")
    elif kind == "many": fs = [b"H%d: %s" % (k, word()) for k in range(n // 20)] + fs; names = ["H%d" % k for k in range(n // 20)] + names
    elif kind == "same": fs = [b"Received: %d %s" % (k, word()) for k in range(n // 20)] + fs; names = ["Received"] * r.choice([n // 20, n // 20 - 1, n // 40, n // 20 + 1]) + names
    elif kind == "absent": names = ["Absent%d" % k for k in range(n // 10)] + names
    elif kind == "body": b = text(n, [b" ", b"  ", b"\r\n", b" \r\n", b"\r\n\r\n"]) + b"\r\n"
    elif kind == "lines": b = b"".join(b"%d\r\n" % k for k in range(n // 6))
    elif kind == "unsigned": fs = [b"Received: " + text(90, [b" "]) for _ in range(n // 100)] + fs
    elif kind == "tag": pass
    elif kind == "name": fs.insert(1, b"X" * n + b": v"); names.append("X" * n)
    return fs, b, names
def big_sig(r, kind, n):
    fs, b, names = big_message(r, kind, n)
    s = Sig(r, fs, names=names, x=None, l=None, type="dkim" if r.randrange(5) else "arc", unknown=False)
    if kind == "tag": s.more = [("z", "x" * n)]
    return s, fs, b

# transit the canonicalization tolerates; each takes (r, sig, fields, body, index of the signature field) and returns (fields, body) or None
def t_unsigned(r, s, fs, b, i):
    f = b"X-New: " + value(r).replace(b"\x01", b"")
    if b"x-new" in [n.lower().encode() for n in s.names]: return None
    at = r.randrange(len(fs) + 1)
    return fs[:at] + [crlf(f)] + fs[at:], b
def t_above(r, s, fs, b, i):
    low = [n.lower().encode() for n in s.names if n.lower() not in OWN]
    c = [n for n in set(low) if low.count(n) <= sum(1 for f in fs if b":" in f and fname(f) == n)]
    if not c: return None
    return [r.choice(sorted(c)).title() + b": added above"] + fs, b
def t_blank(r, s, fs, b, i):
    return fs, (b + r.choice([b"\r\n", b"\r\n\r\n", b"\n", b"\r\n\n"]) if b.endswith(b"\n") else None)
def t_relaxbody(r, s, fs, b, i):
    if s.cb != "relaxed" or s.l is not None: return None
    ls = b.split(b"\n")
    for _ in range(r.randrange(1, 4)):
        k = r.randrange(len(ls))
        l = ls[k]
        e = b"\r" if l.endswith(b"\r") else b""
        l = l[:len(l) - len(e)]
        if k < len(ls) - 1 and r.randrange(2): l += r.choice([b" ", b"\t", b" \t "])
        else: l = l.replace(b" ", r.choice([b"  ", b"\t", b" \t"]))
        ls[k] = l + e
    return fs, b"\n".join(ls)
def t_relaxhead(r, s, fs, b, i):
    if s.ch != "relaxed": return None
    fs = list(fs)
    for _ in range(r.randrange(1, 4)):
        k = r.randrange(len(fs))
        f = fs[k]
        if b":" not in f: continue
        n, v = f.split(b":", 1)
        j = r.randrange(5)
        if j == 0 and n.strip(): n = case(r, n.decode("latin-1")).encode("latin-1")
        elif j == 1: n = n + r.choice([b" ", b"\t"]) if n.strip() else n
        elif j == 2: v = r.choice([b" ", b"\t", b"  ", b"\r\n "]) + v
        elif j == 3 and b" " in v:
            p = [x for x in range(len(v)) if v[x:x + 1] == b" " and v[x - 1:x] != b"\n"] or [len(v)]
            x = r.choice(p); v = v[:x] + r.choice([b"  ", b"\t", b"\r\n ", b" \t", b" \r\n\t"]) + v[x + 1:]
        elif j == 4: v = v + r.choice([b" ", b"\t", b"\r\n "])
        fs[k] = n + b":" + v
    return fs, b
def t_after_l(r, s, fs, b, i):
    if s.l is None: return None
    if s.l == 0: return fs, b + body(r, 10)
    if not b.endswith(b"\n") or len(b.strip(b"\r\n \t")) < s.l: return None
    return fs, b + mix(r, [b"more", b" ", b"\r\n", b"\n", b"x"], r.randrange(1, 8))
def t_bws(r, s, fs, b, i):      # white space in and around the b= value
    f = fs[i]
    m = b_span(f)
    if not m: return None
    lo, hi = m
    x = r.choice([x for x in range(lo, hi + 1) if f[x - 1] not in b"\r\n"])
    return fs[:i] + [f[:x] + fws(r, True) + f[x:]] + fs[i + 1:], b
TOLERATED = [t_unsigned, t_above, t_blank, t_relaxbody, t_relaxhead, t_after_l, t_bws]

def b_span(f):
    """offsets of the value of the b tag"""
    at = f.index(b":") + 1
    for piece in f[at:].split(b";"):
        if b"=" in piece and piece.split(b"=", 1)[0].strip() == b"b":
            return at + piece.index(b"=") + 1, at + len(piece)
        at += len(piece) + 1
    return None
def other(r, c):
    x = c
    while x == c: x = r.choice(b"abcdefgXYZ0189")
    return bytes([x])
def signed_idx(s, fs):
    """fields covered: as many instances of each name, from the bottom, as h= lists it"""
    out = []
    low = [x.lower().encode() for x in s.names]
    for n in sorted(set(low) - {x.encode() for x in OWN}):
        c = [k for k, f in enumerate(fs) if b":" in f and fname(f) == n]
        out += c[-low.count(n):]
    return sorted(out)
def a_value(r, s, fs, b, i):
    c = signed_idx(s, fs)
    if not c: return None
    k = r.choice(c)
    f = fs[k]
    p = [x for x in range(f.index(b":") + 1, len(f)) if f[x] > 32]
    if p and r.randrange(3):
        x = r.choice(p); f = f[:x] + other(r, f[x]) + f[x + 1:]
    else: f = f + r.choice([b"x", b" x", b"\r\n x"])
    return fs[:k] + [f] + fs[k + 1:], b
def a_delete(r, s, fs, b, i):
    low = [x.lower().encode() for x in s.names]
    c = [k for k in signed_idx(s, fs) if low.count(fname(fs[k])) >= sum(1 for f in fs if b":" in f and fname(f) == fname(fs[k]))]
    if not c: return None
    k = r.choice(c)
    return fs[:k] + fs[k + 1:], b
def a_over(r, s, fs, b, i):
    low = [x.lower().encode() for x in s.names]
    c = sorted(n for n in set(low) - {x.encode() for x in OWN} if low.count(n) > sum(1 for f in fs if b":" in f and fname(f) == n))
    if not c: return None
    k = r.randrange(len(fs) + 1)
    return fs[:k] + [case(r, r.choice(c).decode()).encode() + b": smuggled"] + fs[k:], b
def a_body(r, s, fs, b, i):
    if s.l == 0: return None
    p = [x for x in range(len(b)) if b[x] > 32]
    if s.l is not None: p = p[:1] if p and p[0] == 0 else []
    if not p: return None
    x = r.choice(p)
    return fs, b[:x] + other(r, b[x]) + b[x + 1:]
def a_bodycut(r, s, fs, b, i):
    if s.l is not None: return None
    t = b.rstrip(b"\r\n \t")
    return (fs, b[:len(t) - 1]) if t else None
def a_bodyadd(r, s, fs, b, i):
    return (fs, b + r.choice([b"x", b"\r\nx", b"x\r\n"])) if s.l is None else None
def a_tag(r, s, fs, b, i):      # any octet of the signature field outside b= and white space
    f = fs[i]
    m = b_span(f)
    p = [x for x in range(f.index(b":") + 1, len(f)) if f[x] > 32 and not (m[0] <= x < m[1])]
    x = r.choice(p)
    k = r.randrange(4)
    if k == 0: f = f[:x] + f[x + 1:]
    elif k == 1: f = f[:x] + r.choice([b"x", b"1", b"9"]) + f[x:]
    else: f = f[:x] + other(r, f[x]) + f[x + 1:]
    return fs[:i] + [f] + fs[i + 1:], b
def a_newtag(r, s, fs, b, i):
    f = fs[i].rstrip(b" \t\r\n")
    f = f + (b"" if f.endswith(b";") else b";") + r.choice([b" zq=1", b"zq=", b" zq=b="])
    return fs[:i] + [f] + fs[i + 1:], b
def a_b(r, s, fs, b, i):
    f = fs[i]
    lo, hi = b_span(f)
    p = [x for x in range(lo, hi) if chr(f[x]).isalnum()][:-3]
    x = r.choice(p)
    return fs[:i] + [f[:x] + other(r, f[x]) + f[x + 1:]] + fs[i + 1:], b
def a_swap(r, s, fs, b, i):
    low = [x.lower().encode() for x in s.names]
    c = []
    for n in set(low):
        ix = [k for k, f in enumerate(fs) if b":" in f and fname(f) == n]
        if len(ix) >= 2 and low.count(n) < 99:
            x, y = ix[-1], ix[-2]
            if fs[x].split(b":", 1)[1].split() != fs[y].split(b":", 1)[1].split(): c.append((x, y))
    if not c: return None
    x, y = r.choice(sorted(c))
    fs = list(fs); fs[x], fs[y] = fs[y], fs[x]
    return fs, b
def a_simplews(r, s, fs, b, i):     # white space that simple header canonicalization does not forgive
    if s.ch != "simple": return None
    f = fs[i]
    k = r.randrange(4)
    if k == 0:
        x = f.index(b":") + 1; f = f[:x] + b" " + f[x:]
    elif k == 1: f = f.swapcase() if False else f[:1].swapcase() + f[1:]
    elif k == 2: f = f[:f.index(b":")] + b" " + f[f.index(b":"):]
    else:
        j = r.choice(signed_idx(s, fs) or [i])
        g = fs[j]; x = g.index(b":") + 1
        return fs[:j] + [g[:x] + b" " + g[x:]] + fs[j + 1:], b
    return fs[:i] + [f] + fs[i + 1:], b
def a_simplebody(r, s, fs, b, i):
    if s.cb != "simple" or s.l is not None: return None
    if r.randrange(2): return fs, b" " + b
    x = b.find(b"\n")
    return (fs, b[:x] + b"\n" + b[x:]) if 0 <= x < len(b.rstrip(b"\r\n")) else None
TAMPERING = [a_value, a_delete, a_over, a_body, a_bodycut, a_bodyadd, a_tag, a_newtag, a_b, a_swap, a_simplews, a_simplebody]
