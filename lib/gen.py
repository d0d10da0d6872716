"""Building blocks for generated sessions.  Everything random comes from the rng given."""
import base64, json
from pathlib import Path
KEYS = json.load(open(Path(__file__).resolve().parent.parent / "keys/keys.json"))
RSA, ED = ["rsa_a", "rsa_b", "rsa_c"], ["ed_a", "ed_b"]
SMALL = ["rsa_t", "rsa_u"]        # too small to sign with
WIDTHS = [k for k in KEYS if k[:4] == "rsa_" and k[4:].isdigit()]        # RSA keys of every size modulo a line
def sigsize(kid): return {"rsa_t": 32, "rsa_u": 61, "rsa_c": 256, "rsa_d": 512, "rsa_e": 129}.get(kid, int(kid[4:]) // 8 if kid in WIDTHS else 128 if kid.startswith("rsa") else 64)
def hx(b):
    return (b if isinstance(b, (bytes, bytearray)) else b.encode("latin-1")).hex()
def uh(s):
    return bytes.fromhex(s)
def b64(b):
    return base64.b64encode(b).decode()

BLOCKS = [1024, 4096, 8096, 8192, 16192, 16384, 24288]
def stream(r):
    """how the octets reach the library"""
    k = r.randrange(8)
    e = {}
    if k == 0: e["plan"] = "file"
    elif k == 1: e["plan"] = [1]
    elif k == 2: e["plan"] = [r.choice([2, 3, 7, 64, 1000, 8095, 8096, 8097])]
    elif k == 3: e["plan"] = [r.randrange(1, 40) for _ in range(r.randrange(1, 6))]
    if r.randrange(4) == 0: e["pre"] = hx(bytes(r.choice(b"xyz:\r\n ") for _ in range(r.choice([1, 2, 17, 500]))))
    return e

def mix(r, alphabet, n):
    return b"".join(r.choice(alphabet) for _ in range(n))
TEXTY = [b"a", b"b", b"Z", b"0", b".", b"\xe9", b"\x80", b"=", b";", b":"]
GAPS = [b" ", b"\t", b"  ", b" \t", b"\t "]
EOLS = [b"\r\n", b"\n", b"\r\n", b"\r\n"]

def body(r, size=None):
    """bodies with white space runs, blank lines, bare CR and LF, ends of every sort"""
    out = bytearray()
    want = size if size is not None else r.choice([0, 0, 1, 2, 5, 20, 60, 200, 1000])
    eol = r.choice([[b"\r\n"], [b"\n"], EOLS, [b"\r\n", b"\n", b"\r", b"\r\r\n"]])
    while len(out) < want:
        k = r.randrange(12)
        if k < 5: out += mix(r, TEXTY, r.randrange(1, 30))
        elif k < 7: out += r.choice(GAPS) * r.choice([1, 1, 1, 3])
        elif k < 10: out += r.choice(eol)
        elif k == 10: out += r.choice(eol) * r.randrange(2, 5)
        else: out += bytes([r.randrange(256)])
    k = r.randrange(6)
    if k == 0: out += r.choice(eol) * r.randrange(1, 4)
    elif k == 1: out += r.choice(GAPS)
    elif k == 2: out += r.choice(GAPS) + r.choice(eol) + r.choice(GAPS) + r.choice(eol)
    elif k == 3: out += b"\r\n"
    return bytes(out)

def edge_body(r, base=None):
    """a body whose interesting octets lie around an internal read boundary"""
    b = base or r.choice(BLOCKS)
    tail = mix(r, [b"\r", b"\n", b" ", b"\t", b"a", b"\r\n", b"\x00"], r.randrange(2, 14))
    back = r.randrange(0, len(tail) + 1)
    k = r.randrange(4)
    if k == 0: fill = b"a" * (b - back)
    elif k == 1: fill = (b"x" * 76 + b"\r\n") * (b // 78) ; fill += b"y" * (b - back - len(fill)) if b - back > len(fill) else b""
    elif k == 2: fill = b"z" + r.choice([b" ", b"\t", b"\n", b"\r\n"]) * (b - 1)
    else: fill = body(r, b - back - 20)
    fill = fill[:max(0, b - back)]
    if len(fill) < b - back: fill += b"q" * (b - back - len(fill))
    return fill + tail + (b"" if r.randrange(3) == 0 else body(r, r.choice([0, 3, 60])))

# ---- header fields and messages
NAMES = ["From", "To", "Subject", "Date", "Cc", "Message-ID", "Received", "Reply-To", "X-A", "X-B", "List-Id", "MIME-Version", "Content-Type"]
def case(r, s):
    k = r.randrange(5)
    return s if k < 2 else s.lower() if k == 2 else s.upper() if k == 3 else "".join(r.choice([c.lower(), c.upper()]) for c in s)
WORDS = [b"hello", b"x", b"=?utf-8?q?a?=", b"<a@b.c>", b"a:b", b";", b"\xc3\xa9", b"\xff\xfe", b"1", b"\"q\"", b"(c)", b"k=v;", b"\x01", b"=", b"0"*60, b"\0", b"cut\0tail", b"\x0b\x0c", b"\x7f"]
def value(r, eol=b"\r\n", folds=True, words=None):
    """a field value: words, WSP runs, folds (never a line of WSP only unless wild)"""
    out = bytearray()
    for i in range(r.choice([0, 1, 1, 2, 3, 5, 9])):
        k = r.randrange(6)
        if k == 0: out += r.choice(GAPS)
        elif k == 1 and folds: out += r.choice([b"", b" ", b"\t "]) + eol + r.choice([b" ", b"\t", b"  "])
        elif k < 4: out += b" "
        out += r.choice(words or WORDS)
    k = r.randrange(8)
    if k == 0: out += r.choice(GAPS)
    elif k == 1 and folds: out += eol + b" " + r.choice([b"", b"\t"])
    return bytes(out)
def fieldline(r, name=None, eol=b"\r\n", tidy=False, words=None):
    n = (name or r.choice(NAMES))
    pre = b"" if tidy or r.randrange(6) else r.choice([b" ", b"\t", b"  ", b" \t"])
    post = r.choice([b" ", b" ", b"", b"  ", b"\t"]) + (eol + b" " if not r.randrange(8) else b"")
    return case(r, n).encode() + pre + b":" + post + value(r, eol, words=words)
def message(r, bodysize=None, extra=(), frm=True, tidy=False, nofrom=False):
    """(header fields, eol, body-or-None): a message in parts"""
    eol = b"\r\n" if r.randrange(4) else b"\n"
    fs = [fieldline(r, eol=eol, tidy=tidy) for _ in range(r.choice([0, 1, 3, 5, 9]))]
    if frm: fs.insert(r.randrange(len(fs) + 1), fieldline(r, "From", eol=eol, tidy=tidy))
    for x in extra: fs.insert(r.randrange(len(fs) + 1), x)
    b = body(r, bodysize)
    return fs, eol, b
def join(fs, eol, b):
    """b None: no blank line and no body"""
    h = b"".join(f + eol for f in fs)
    return h if b is None else h + eol + b
def wild(r, n=None):
    """an octet stream that is hardly a message"""
    return mix(r, [b"a", b":", b" ", b"\t", b"\r\n", b"\n", b"\r", b"\r\n", b"X: y", b"\x00", b"\xff"], n if n is not None else r.randrange(0, 40))
